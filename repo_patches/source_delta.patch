From 0e815cf0330b07a0b12a85b71668a5f4c0fd380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 01/31] fix: define the portable count_available once and for
 fully available blocks

---
 tpp/detail/swiss_table.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 31d412d..e903cd2 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -322,12 +322,8 @@ namespace tpp::_detail
 	std::size_t meta_block::count_available() const noexcept
 	{
 		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
-	}
-	std::size_t meta_block::count_available() const noexcept
-	{
-		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
+		const auto mask = (value | ~(value >> 7)) & lsb_mask;
+		return mask ? ctz(mask) >> 3 : sizeof(value);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
-- 
2.43.0


From c59c7b492477a95606ace988fd925e9d7c94a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 02/31] fix: round the requested bucket count up to a valid
 table capacity

---
 tpp/detail/swiss_table.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index e903cd2..b76449e 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -832,10 +832,9 @@ namespace tpp::_detail
 		swiss_table() = default;
 
 		swiss_table(const allocator_type &alloc) : m_buffer(alloc) {}
-		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n, alloc)
+		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(alloc)
 		{
-			TPP_ASSERT(((n + 1) & n) == 0, "Capacity must be a power of 2 - 1");
-			m_num_empty = capacity_to_max_size(n);
+			if (n != 0) do_rehash(align_capacity(n));
 		}
 
 		template<typename Iter>
-- 
2.43.0


From dc9b3b4d9af332d81cb899b4938b38d4ccd1a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 03/31] fix: rehash must keep room for the current size

---
 tpp/detail/swiss_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index b76449e..33ee3be 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1121,7 +1121,7 @@ namespace tpp::_detail
 			/* Skip rehash if table is empty and requested size is 0. */
 			TPP_IF_UNLIKELY(!n && !m_size) return;
 
-			const auto new_cap = align_capacity(n | size_to_min_capacity(n));
+			const auto new_cap = align_capacity(n | size_to_min_capacity(m_size));
 			if (!n || new_cap > m_buffer.capacity) do_rehash(new_cap);
 		}
 
-- 
2.43.0


From f39ada69218795e82476ce7377577ca25869565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 04/31] fix: swapping ordered links must re-link the neighbours
 of both

---
 tpp/detail/table_common.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 20b3e50..3755975 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -164,16 +164,12 @@ namespace tpp::_detail
 
 		void swap(ordered_link &other) noexcept
 		{
-			std::swap(next, other.next);
-			std::swap(prev, other.prev);
-		}
-		friend void swap(ordered_link &a, ordered_link &b) noexcept
-		{
-			auto a_next = a.off(a.next), b_next = b.off(b.next);
-			auto a_prev = a.off(a.prev), b_prev = b.off(b.prev);
-			a.link(b_next, b_prev);
-			b.link(a_next, a_prev);
+			/* Offsets are relative, neighbours of both links need to be updated. */
+			auto tmp = ordered_link{std::move(*this)};
+			*this = std::move(other);
+			other = std::move(tmp);
 		}
+		friend void swap(ordered_link &a, ordered_link &b) noexcept { a.swap(b); }
 
 		/* Offsets from `this` to next & previous links in bytes. */
 		std::ptrdiff_t next = 0; /* next_ptr - this */
-- 
2.43.0


From c3bbdb3f705657c3aecf0ed607062d7bdcaf6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 05/31] fix: hinted insertion overloads did not compile

---
 tpp/dense_map.hpp          | 16 ++++++++--------
 tpp/detail/dense_table.hpp |  4 ++--
 tpp/detail/swiss_table.hpp | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index daeabe8..b7e484a 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -434,7 +434,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -446,7 +446,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -459,7 +459,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -471,7 +471,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1084,7 +1084,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1096,7 +1096,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1109,7 +1109,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1121,7 +1121,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6e3b685..89eec1d 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -401,7 +401,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -411,7 +411,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename... Ks, typename... Args>
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 33ee3be..868b8aa 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -968,7 +968,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 				return to_iter(target_pos);
 		}
@@ -1002,11 +1002,11 @@ namespace tpp::_detail
 			}
 		}
 		template<typename N>
-		iterator insert_or_assign_node(node_iterator hint, N &&node)
+		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
@@ -1020,7 +1020,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -1030,7 +1030,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename U, typename... Args>
-- 
2.43.0


From a938813cf567d4db3a778bd4cacc5c755730e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 06/31] fix: operator[] must not move from a key passed as an
 lvalue

---
 tpp/dense_map.hpp  | 8 ++++----
 tpp/sparse_map.hpp | 8 ++++----
 tpp/stable_map.hpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index b7e484a..5fa8d2a 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -545,14 +545,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
@@ -1195,14 +1195,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index 1a490d1..ea39923 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -514,14 +514,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1109,14 +1109,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index c7dfeb0..4908326 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -561,14 +561,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1203,14 +1203,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
-- 
2.43.0


From 446af0753076937dfedd4d03273916bb37fdb863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 07/31] fix: exception specification of free swap functions
 named a different or incomplete type

---
 tpp/dense_map.hpp      | 4 ++--
 tpp/dense_multimap.hpp | 2 +-
 tpp/dense_multiset.hpp | 2 +-
 tpp/dense_set.hpp      | 4 ++--
 tpp/sparse_map.hpp     | 4 ++--
 tpp/sparse_set.hpp     | 4 ++--
 tpp/stable_map.hpp     | 4 ++--
 tpp/stable_set.hpp     | 4 ++--
 8 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 5fa8d2a..7e3a281 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -622,7 +622,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1272,7 +1272,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 0f2e572..795d03d 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -456,7 +456,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename M, typename H, typename C, typename A>
-	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multimap<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index ce11f31..8bb8ff2 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -330,7 +330,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename H, typename C, typename A>
-	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multiset<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index b59cb2e..37a216d 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -331,7 +331,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -692,7 +692,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index ea39923..dc6fe14 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -567,7 +567,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1162,7 +1162,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_set.hpp b/tpp/sparse_set.hpp
index 81be0b5..d730aca 100644
--- a/tpp/sparse_set.hpp
+++ b/tpp/sparse_set.hpp
@@ -303,7 +303,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	sparse_set(I, I, typename _detail::deduce_set_t<sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> sparse_set<Key, Hash, Cmp, Alloc>;
@@ -622,7 +622,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	ordered_sparse_set(I, I, typename _detail::deduce_set_t<ordered_sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> ordered_sparse_set<Key, Hash, Cmp, Alloc>;
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index 4908326..2cf3bf2 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -614,7 +614,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1256,7 +1256,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index ec64db6..711b810 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -317,7 +317,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -668,7 +668,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
-- 
2.43.0


From d71bbeadf9ebcce3439a56664eef5a5e938c64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 08/31] fix: erase_if of dense containers must not keep a
 past-the-end iterator across erasure

---
 tpp/dense_map.hpp      | 4 ++--
 tpp/dense_multimap.hpp | 2 +-
 tpp/dense_multiset.hpp | 2 +-
 tpp/dense_set.hpp      | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 7e3a281..7dd095f 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -630,7 +630,7 @@ namespace tpp
 	inline typename dense_map<K, M, H, C, A>::size_type erase_if(dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
@@ -1280,7 +1280,7 @@ namespace tpp
 	inline typename ordered_dense_map<K, M, H, C, A>::size_type erase_if(ordered_dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 795d03d..1cb1a92 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -464,7 +464,7 @@ namespace tpp
 	inline typename dense_multimap<Mk, M, H, C, A>::size_type erase_if(dense_multimap<Mk, M, H, C, A> &map, P pred)
 	{
 		typename dense_multimap<Mk, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index 8bb8ff2..a59b18b 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -338,7 +338,7 @@ namespace tpp
 	inline typename dense_multiset<Mk, H, C, A>::size_type erase_if(dense_multiset<Mk, H, C, A> &set, P pred)
 	{
 		typename dense_multiset<Mk, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index 37a216d..df08555 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -339,7 +339,7 @@ namespace tpp
 	inline typename dense_set<K, H, C, A>::size_type erase_if(dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
@@ -700,7 +700,7 @@ namespace tpp
 	inline typename ordered_dense_set<K, H, C, A>::size_type erase_if(ordered_dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
-- 
2.43.0


From 6d149c909fa6aa17d6afdbee6e7f68274cb36843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 09/31] fix: merge of stable tables lost the first ordered
 element and the order, replaced functors, and did not compile for sets with
 different functors

---
 tpp/detail/swiss_table.hpp | 22 ++++++----------------
 tpp/stable_set.hpp         |  6 ++++++
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 868b8aa..e5f99f0 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1094,27 +1094,17 @@ namespace tpp::_detail
 			reserve(m_size + other.size());
 
 			/* Extract nodes from other and insert into this. */
-			/* Iterate backwards for ordered links, since the ordered iterators are invalidated on erase. */
-			const auto transfer = [&](const const_iterator &pos) noexcept
+			/* Advance the iterator before the transfer, since it is invalidated once the node is extracted. */
+			for (auto pos = other.begin(), last = other.end(); pos != last;)
 			{
-				const auto &key = ValueTraits::get_key(*pos);
+				const auto target = const_iterator{pos++};
+				const auto &key = ValueTraits::get_key(*target);
 				const auto h = hash(key);
-				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
-			};
-			if constexpr (!is_ordered::value)
-				for (auto pos = other.begin(), last = other.end(); pos != last; ++pos) transfer(pos);
-			else
-				for (auto pos = other.end(), last = other.begin(); --pos != last;) transfer(pos);
+				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(target));
+			}
 		}
 		template<typename Kh2, typename Kc2>
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
-		void merge(swiss_table &&other)
-		{
-			if (m_size == 0)
-				operator=(std::move(other));
-			else
-				merge(other);
-		}
 
 		void rehash(size_type n)
 		{
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index 711b810..0249389 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -22,6 +22,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::empty_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
@@ -369,6 +372,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class ordered_stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class ordered_stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::ordered_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
-- 
2.43.0


From 664b434e43c675132abd042db8160906a79e4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 10/31] fix: range erase of swiss tables did not compile for
 forward iterators and returned end() for empty ranges

---
 tpp/detail/swiss_table.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index e5f99f0..36a7189 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1064,9 +1064,8 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			while (first != last) first = erase(first);
+			return iterator{to_underlying(last)};
 		}
 
 		template<typename T, typename = std::enable_if_t<!std::is_convertible_v<T, const_iterator>>>
-- 
2.43.0


From aa677cee0d1df952e81d358e4ad755f0d77c0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 11/31] fix: node handles: empty handles, unequal allocators
 and exceptions corrupted tables or leaked

---
 tpp/detail/swiss_table.hpp  | 16 ++++++----
 tpp/detail/table_common.hpp | 61 ++++++++++++++++++++++++++++---------
 2 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 36a7189..21f795d 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -957,6 +957,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(N &&node) -> typename stable_node<V, Alloc, ValueTraits>::template insert_return<iterator, N>
 		{
+			TPP_IF_UNLIKELY(node.empty()) return {end(), false};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
@@ -966,6 +968,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(const_iterator hint, N &&node) -> iterator
 		{
+			TPP_IF_UNLIKELY(node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
@@ -989,30 +993,30 @@ namespace tpp::_detail
 		template<typename N>
 		std::pair<iterator, bool> insert_or_assign_node(N &&node)
 		{
+			TPP_IF_UNLIKELY(node.empty()) return {end(), false};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
-				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				m_buffer.nodes()[target_pos].assign(alloc, std::forward<N>(node));
 				return {to_iter(target_pos), false};
 			}
 		}
 		template<typename N>
 		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
+			TPP_IF_UNLIKELY(node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
-				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				m_buffer.nodes()[target_pos].assign(alloc, std::forward<N>(node));
 				return to_iter(target_pos);
 			}
 		}
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 3755975..02af751 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -332,8 +332,14 @@ namespace tpp::_detail
 				{
 					do_destroy();
 
-					if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value)
-						alloc_base::operator=(std::move(other));
+					/* An empty handle always adopts the allocator of the assigned one. */
+					if constexpr (std::is_move_assignable_v<allocator_type>)
+						alloc() = std::move(other.alloc());
+					else if constexpr (!std::is_empty_v<allocator_type>)
+					{
+						alloc().~allocator_type();
+						new(&alloc()) allocator_type(other.alloc());
+					}
 
 					m_ptr = std::exchange(other.m_ptr, value_ptr{});
 					assert_alloc(other);
@@ -352,16 +358,13 @@ namespace tpp::_detail
 			[[nodiscard]] constexpr auto &key() const noexcept { return Traits::get_key(value()); }
 			[[nodiscard]] constexpr auto &mapped() const noexcept { return Traits::get_mapped(value()); }
 
-			void swap(extracted_type &other) noexcept(std::is_nothrow_swappable_v<A>)
+			void swap(extracted_type &other) noexcept
 			{
-				using std::swap;
-				if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
-					swap(alloc(), other.alloc());
-
-				assert_alloc(other);
-				swap(m_ptr, other.m_ptr);
+				auto tmp = extracted_type{std::move(*this)};
+				*this = std::move(other);
+				other = std::move(tmp);
 			}
-			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<extracted_type>) { a.swap(b); }
+			friend void swap(extracted_type &a, extracted_type &b) noexcept { a.swap(b); }
 
 		private:
 			[[nodiscard]] constexpr auto &alloc() noexcept { return alloc_base::value(); }
@@ -376,7 +379,7 @@ namespace tpp::_detail
 				if (m_ptr)
 				{
 					std::allocator_traits<allocator_type>::destroy(alloc(), m_ptr);
-					std::allocator_traits<allocator_type>::deallocate(alloc(), m_ptr, 1);
+					std::allocator_traits<allocator_type>::deallocate(alloc(), std::exchange(m_ptr, value_ptr{}), 1);
 				}
 			}
 
@@ -419,7 +422,6 @@ namespace tpp::_detail
 		void construct(allocator_type &, stable_node &&other) { move_from(other); }
 		void construct(allocator_type &alloc, extracted_type &&other)
 		{
-			using std::swap;
 			if (allocator_eq(alloc, other.alloc()))
 				m_ptr = std::exchange(other.m_ptr, value_ptr{});
 			else
@@ -435,14 +437,43 @@ namespace tpp::_detail
 			m_hash = other.m_hash;
 		}
 
+		void assign(allocator_type &alloc, extracted_type &&other)
+		{
+			/* Only the value is replaced, links & hash of the node are left as is. */
+			auto tmp = stable_node{};
+			tmp.construct(alloc, std::move(other));
+			std::swap(m_ptr, tmp.m_ptr);
+			tmp.destroy(alloc);
+		}
+
 		template<typename U>
-		void relocate(U &, U &, stable_node &other) { move_from(other); }
+		void relocate(U &alloc_dst, U &alloc_src, stable_node &other)
+		{
+			auto conv_alloc_dst = allocator_type{alloc_dst};
+			auto conv_alloc_src = allocator_type{alloc_src};
+			if (allocator_eq(conv_alloc_dst, conv_alloc_src))
+				move_from(other);
+			else
+			{
+				/* Memory of a different allocator cannot be adopted. */
+				construct(conv_alloc_dst, std::move(other.value()));
+				link_base::operator=(std::move(other));
+				m_hash = other.m_hash;
+				other.destroy(conv_alloc_src);
+			}
+		}
 
 		template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<V, Args...>>>
 		void construct(allocator_type &alloc, Args &&...args)
 		{
-			m_ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
-			std::allocator_traits<allocator_type>::construct(alloc, m_ptr, std::forward<Args>(args)...);
+			auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
+			try { std::allocator_traits<allocator_type>::construct(alloc, to_address(ptr), std::forward<Args>(args)...); }
+			catch (...)
+			{
+				std::allocator_traits<allocator_type>::deallocate(alloc, ptr, 1);
+				throw;
+			}
+			m_ptr = ptr;
 		}
 		template<typename... Args>
 		void replace(Args &&...args)
-- 
2.43.0


From def7942b89c66c5ef16d705c47753fe16ad6bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 12/31] fix: swiss table buffers: null and wrongly sized
 deallocations, leaks on failed allocation, ignored
 propagate_on_container_swap

---
 tpp/detail/swiss_table.hpp | 81 ++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 43 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 21f795d..a4ca9be 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -471,34 +471,23 @@ namespace tpp::_detail
 
 		swiss_table_buffer &operator=(const swiss_table_buffer &other)
 		{
+			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
+				deallocate();
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value)
-			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
-			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
-			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
-			}
-			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
-				capacity = 0;
 			return *this;
 		}
-		swiss_table_buffer &operator=(swiss_table_buffer &&other) noexcept(std::is_nothrow_move_assignable_v<MetaAlloc> && std::is_nothrow_move_assignable_v<NodeAlloc>)
+		swiss_table_buffer &operator=(swiss_table_buffer &&other) noexcept((std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<MetaAlloc>::is_always_equal::value) &&
+		                                                                   (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::is_always_equal::value))
 		{
+			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
+				deallocate();
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value)
-			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
-			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
-			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
-			}
-			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
-				capacity = 0;
 			return *this;
 		}
 
@@ -537,7 +526,7 @@ namespace tpp::_detail
 				throw;
 			}
 
-			if (capacity != 0)
+			if (n != 0)
 			{
 				relocate(tmp_metadata, tmp_nodes, n);
 				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
@@ -547,26 +536,28 @@ namespace tpp::_detail
 
 		void allocate(size_type n)
 		{
-			m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-			m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			auto metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
+			try { m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n); }
+			catch (...)
+			{
+				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), metadata, n + sizeof(meta_block));
+				throw;
+			}
+			m_metadata = metadata;
 			capacity = n;
 		}
 		void reallocate(size_type n)
 		{
-			if (capacity < n)
+			/* Positions of nodes depend on the capacity, so it must match exactly. */
+			if (capacity != n)
 			{
-				if (capacity != 0)
-				{
-					std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-					std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
-				}
-				m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
-				capacity = n;
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
 			m_metadata = {};
@@ -588,6 +579,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<MetaAlloc> && std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
@@ -641,21 +633,17 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				deallocate();
 				empty_base<NodeAlloc>::operator=(other);
-				capacity = 0;
-				m_data = {};
 			}
 			return *this;
 		}
-		swiss_table_buffer &operator=(swiss_table_buffer &&other) noexcept(std::is_nothrow_move_assignable_v<NodeAlloc>)
+		swiss_table_buffer &operator=(swiss_table_buffer &&other) noexcept(std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::is_always_equal::value)
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				deallocate();
 				empty_base<NodeAlloc>::operator=(other);
-				capacity = 0;
-				m_data = {};
 			}
 			return *this;
 		}
@@ -684,8 +672,11 @@ namespace tpp::_detail
 			std::swap(tmp_data, m_data);
 			std::swap(n, capacity);
 
-			relocate(old_meta, old_nodes, n);
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			if (n != 0)
+			{
+				relocate(old_meta, old_nodes, n);
+				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			}
 		}
 
 		void allocate(size_type n)
@@ -695,15 +686,16 @@ namespace tpp::_detail
 		}
 		void reallocate(size_type n)
 		{
-			if (capacity < n)
+			/* Positions of nodes depend on the capacity, so it must match exactly. */
+			if (capacity != n)
 			{
-				if (capacity) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
-				m_data = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), buffer_size(n));
-				capacity = n;
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 			capacity = 0;
 			m_data = {};
@@ -722,6 +714,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
 			swap_data(other);
@@ -1130,7 +1123,9 @@ namespace tpp::_detail
 			link_base::swap(other);
 			hash_base::swap(other);
 			cmp_base::swap(other);
-			swap_buffers(other);
+			std::swap(m_size, other.m_size);
+			std::swap(m_num_empty, other.m_num_empty);
+			m_buffer.swap(other.m_buffer);
 		}
 
 	private:
-- 
2.43.0


From bcd8ddb9e299cc389610514fb7cce0b6d7cbbff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 13/31] fix: copying and moving swiss tables lost deleted
 markers (making elements unreachable), kept stale metadata and links, and
 leaked on exceptions

---
 tpp/detail/swiss_table.hpp | 133 +++++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 56 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index a4ca9be..0b83c39 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -837,19 +837,17 @@ namespace tpp::_detail
 		swiss_table(const swiss_table &other, const allocator_type &alloc) : hash_base(other), cmp_base(other), link_base(), m_buffer(alloc) { copy_data(other); }
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(std::move(other.m_buffer)) { move_from(other); }
 		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(alloc) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(alloc) { move_from(other); }
 
 		swiss_table &operator=(const swiss_table &other)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				erase_nodes();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
-
-				erase_nodes();
 				m_buffer = other.m_buffer;
 				copy_data(other);
 			}
@@ -859,11 +857,9 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				erase_nodes();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
-
-				erase_nodes();
 				m_buffer = std::move(other.m_buffer);
 				move_from(other);
 			}
@@ -872,7 +868,7 @@ namespace tpp::_detail
 
 		~swiss_table()
 		{
-			if (m_size != 0) erase_nodes();
+			if (m_size != 0) destroy_nodes();
 			m_buffer.deallocate();
 		}
 
@@ -903,17 +899,7 @@ namespace tpp::_detail
 
 		void clear()
 		{
-			if (m_size != 0)
-			{
-				/* Reset header link. */
-				if constexpr (is_ordered::value)
-					*header_link() = {};
-
-				erase_nodes();
-				m_buffer.fill_empty();
-				m_size = 0;
-				m_num_empty = capacity_to_max_size(m_buffer.capacity);
-			}
+			if (m_size != 0) erase_nodes();
 		}
 		void reserve(size_type n) { if (n > m_size + m_num_empty) do_rehash(align_capacity(size_to_min_capacity(n))); }
 
@@ -1434,28 +1420,32 @@ namespace tpp::_detail
 			TPP_ASSERT(m_size == 0, "Table must be empty prior to copying elements");
 
 			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
+			TPP_IF_UNLIKELY(other.m_size == 0) return;
 
-			/* (re)allocate the metadata & node buffers if needed. */
-			m_buffer.reallocate(other.m_buffer.capacity);
-			m_buffer.fill_empty();
+			reallocate_buffer(other.m_buffer.capacity);
 
-			/* Copy elements from the other table. */
+			/* Copy elements from the other table. Deleted entries are copied as well, since elements may be probed past them. */
 			auto alloc = value_allocator{get_allocator()};
 			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
 			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
+			try
+			{
+				for (size_type i = 0; i != other.m_buffer.capacity; ++i)
 				{
-					nodes[i].construct(alloc, other_nodes[i]);
+					if (is_occupied(other_metadata[i])) nodes[i].construct(alloc, std::as_const(other_nodes[i]));
 					set_metadata(i, other_metadata[i]);
 				}
+			}
+			catch (...)
+			{
+				destroy_nodes();
+				m_buffer.deallocate();
+				m_num_empty = 0;
+				throw;
+			}
 			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			m_num_empty = other.m_num_empty;
 
 			/* If the node link is ordered, update header offsets to point to the copied data. */
 			if constexpr (is_ordered::value)
@@ -1469,46 +1459,74 @@ namespace tpp::_detail
 		void move_data(swiss_table &other)
 		{
 			/* Expect that there is no data in the buffers, but the buffers might still exist. */
-			TPP_ASSERT(size() == 0, "Table must be empty prior to moving elements");
+			TPP_ASSERT(m_size == 0, "Table must be empty prior to moving elements");
+			const auto size = other.m_size;
 
 			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_size = 0;
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
+			TPP_IF_UNLIKELY(other.m_size == 0) return;
 
-			/* (re)allocate the metadata & node buffers if needed. */
-			m_buffer.reallocate(other.m_buffer.capacity);
-			m_buffer.fill_empty();
+			reallocate_buffer(other.m_buffer.capacity);
 
-			/* Move elements from the other table. */
+			/* Move elements from the other table. Deleted entries are copied as well, since elements may be probed past them. */
 			auto alloc = value_allocator{get_allocator()}, other_alloc = value_allocator{other.get_allocator()};
 			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
 			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
+			try
+			{
+				for (size_type i = 0; i != other.m_buffer.capacity; ++i)
 				{
-					auto *src_node = other_nodes + i, *dst_node = nodes + i;
-					dst_node->relocate(alloc, other_alloc, *src_node);
-					set_metadata(i, other_metadata[i]);
+					const auto meta = other_metadata[i];
+					if (is_occupied(meta))
+					{
+						nodes[i].relocate(alloc, other_alloc, other_nodes[i]);
+						other.set_metadata(i, meta_byte::deleted);
+						--other.m_size;
+					}
+					set_metadata(i, meta);
 				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			}
+			catch (...)
+			{
+				/* Nodes that were already moved are still linked with nodes of the other table. */
+				if constexpr (is_ordered::value)
+					for (size_type i = 0; i != m_buffer.capacity; ++i)
+						if (is_occupied(m_buffer.meta()[i])) nodes[i].unlink();
+				destroy_nodes();
+				m_buffer.deallocate();
+				m_num_empty = 0;
+				throw;
+			}
+			m_size = size;
+			m_num_empty = other.m_num_empty;
 
-			/* Reset the other table. */
-			other.m_size = 0;
-			other.m_num_empty = capacity_to_max_size(other.m_buffer.capacity);
-			other.m_buffer.fill_empty();
+			/* Node links already reference each other, only the header needs to be moved. */
+			link_base::operator=(std::move(other));
+			other.erase_nodes();
 		}
-		void erase_nodes()
+		void reallocate_buffer(size_type n)
+		{
+			m_num_empty = 0;
+			m_buffer.reallocate(n);
+			m_buffer.fill_empty();
+			m_num_empty = capacity_to_max_size(n);
+		}
+		void destroy_nodes()
 		{
 			auto alloc = value_allocator{get_allocator()};
 			auto *metadata = m_buffer.meta();
 			auto *nodes = m_buffer.nodes();
 			for (size_type i = 0; i != m_buffer.capacity; ++i)
 				if (is_occupied(metadata[i])) nodes[i].destroy(alloc);
+		}
+		void erase_nodes()
+		{
+			/* Reset header link. */
+			if constexpr (is_ordered::value) *header_link() = {};
+
+			destroy_nodes();
+			if (m_buffer.capacity != 0) m_buffer.fill_empty();
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
 			m_size = 0;
 		}
 		void swap_buffers(swiss_table &other)
@@ -1520,7 +1538,10 @@ namespace tpp::_detail
 		void move_from(swiss_table &other)
 		{
 			if (m_buffer.can_swap(other.m_buffer))
+			{
+				link_base::operator=(std::move(other));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
-- 
2.43.0


From 836a4dabc8b73c04801f1646ebf522db081b2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 14/31] fix: insertion with arguments or hints that refer to
 elements of the table used them after they were relocated or destroyed, and
 leaked on exceptions

---
 tpp/detail/swiss_table.hpp  | 64 +++++++++++++++++++++++++++++++++----
 tpp/detail/table_common.hpp | 32 ++++++++++++++-----
 2 files changed, 81 insertions(+), 15 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 0b83c39..ad1a5dd 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1230,6 +1230,51 @@ namespace tpp::_detail
 				node->link(prev);
 			}
 		}
+
+		/* Nodes may be relocated by a rehash, so the hint is tracked via a temporary link inserted after the hinted node. */
+		struct hint_guard : bucket_link
+		{
+			explicit hint_guard(node_iterator &hint) noexcept : hint(hint)
+			{
+				if constexpr (is_ordered::value)
+					if (hint.link) bucket_link::link(const_cast<bucket_link *>(hint.link));
+			}
+			~hint_guard()
+			{
+				if constexpr (is_ordered::value)
+					if (hint.link)
+					{
+						hint.link = bucket_link::off(bucket_link::prev);
+						bucket_link::unlink();
+					}
+			}
+
+			node_iterator &hint;
+		};
+		[[nodiscard]] static hint_guard lock_hint(node_iterator &hint) noexcept { return hint_guard{hint}; }
+
+		/* Arguments of an insertion may refer to elements of this table, so the new element has to be created before existing ones are relocated. */
+		struct node_guard
+		{
+			~node_guard() { node.destroy(alloc); }
+
+			bucket_node &node;
+			value_allocator &alloc;
+		};
+		template<typename... Args>
+		iterator emplace_value(node_iterator hint, std::size_t h, Args &&...args)
+		{
+			TPP_IF_LIKELY(m_num_empty != 0)
+				return emplace_node(hint, h, std::forward<Args>(args)...);
+
+			auto alloc = value_allocator{get_allocator()};
+			auto tmp = bucket_node{};
+			tmp.construct(alloc, std::forward<Args>(args)...);
+
+			const auto guard = node_guard{tmp, alloc};
+			return emplace_node(hint, h, std::move(tmp));
+		}
+
 		template<typename... Args>
 		iterator emplace_node(node_iterator hint, std::size_t h, Args &&...args)
 		{
@@ -1238,7 +1283,8 @@ namespace tpp::_detail
 			{
 				do_rehash(1);
 				target_pos = find_available(h);
-			} else
+			}
+			else
 			{
 				target_pos = find_available(h);
 				TPP_IF_UNLIKELY(!m_num_empty && m_buffer.meta()[target_pos] != meta_byte::deleted)
@@ -1247,6 +1293,7 @@ namespace tpp::_detail
 					 * https://github.com/abseil/abseil-cpp/blob/f7affaf32a6a396465507dd10520a3fe183d4e40/absl/container/internal/raw_hash_set.cc#L97
 					 *
 					 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
+					const auto hint_lock = lock_hint(hint);
 					if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
 						rehash_deleted();
 					else
@@ -1291,17 +1338,20 @@ namespace tpp::_detail
 			auto tmp = bucket_node{};
 
 			tmp.construct(alloc, std::forward<Args>(args)...);
-			auto result = do_insert(hint, tmp.key(), std::move(tmp));
-			tmp.destroy(alloc);
+			const auto guard = node_guard{tmp, alloc};
 
-			return result;
+			const auto h = hash(tmp.key());
+			if (auto target_pos = find_node(tmp.key(), h); target_pos == m_buffer.capacity)
+				return {emplace_node(hint, h, std::move(tmp)), true};
+			else
+				return {to_iter(target_pos), false};
 		}
 		template<typename T, typename... Args>
 		std::pair<iterator, bool> do_try_emplace(node_iterator hint, T &&key, Args &&...args)
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_value(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 				return {to_iter(target_pos), false};
 		}
@@ -1310,7 +1360,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::forward<Args>(args)...), true};
+				return {emplace_value(hint, h, std::forward<Args>(args)...), true};
 			else
 				return {to_iter(target_pos), false};
 		}
@@ -1319,7 +1369,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_value(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 			{
 				m_buffer.nodes()[target_pos].replace(std::forward<Args>(args)...);
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 02af751..2b8c654 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -246,11 +246,19 @@ namespace tpp::_detail
 			auto &target = mapped();
 			using mapped_t = std::remove_reference_t<decltype(target)>;
 
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
-				target.~mapped_t();
-
 			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+			if constexpr (std::is_move_constructible_v<mapped_t>)
+			{
+				/* Arguments may refer to the replaced value and its constructor may throw, so the old value must be destroyed last. */
+				auto tmp = mapped_t(std::forward<Args>(args)...);
+				target.~mapped_t();
+				new(&target) mapped_t(std::move(tmp));
+			}
+			else
+			{
+				target.~mapped_t();
+				new(&target) mapped_t(std::forward<Args>(args)...);
+			}
 		}
 		void destroy(A &alloc) { std::allocator_traits<allocator_type>::destroy(alloc, &value()); }
 
@@ -481,11 +489,19 @@ namespace tpp::_detail
 			auto &target = mapped();
 			using mapped_t = std::remove_reference_t<decltype(target)>;
 
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
-				target.~mapped_t();
-
 			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+			if constexpr (std::is_move_constructible_v<mapped_t>)
+			{
+				/* Arguments may refer to the replaced value and its constructor may throw, so the old value must be destroyed last. */
+				auto tmp = mapped_t(std::forward<Args>(args)...);
+				target.~mapped_t();
+				new(&target) mapped_t(std::move(tmp));
+			}
+			else
+			{
+				target.~mapped_t();
+				new(&target) mapped_t(std::forward<Args>(args)...);
+			}
 		}
 		void destroy(A &alloc)
 		{
-- 
2.43.0


From 608ccd932d004eb6acf5e18206e99a5d9599fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 15/31] fix: std::is_permutation and std::max were used without
 including <algorithm> in release builds

---
 tpp/detail/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 83beb0f..8cf8f01 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <iterator>
 #include <cstring>
 #include <memory>
 #include <array>
@@ -16,8 +18,6 @@
 
 #if defined(TPP_DEBUG)
 
-#include <algorithm>
-#include <iterator>
 #include <cstdlib>
 #include <cstdio>
 
-- 
2.43.0


From 20f95cb905cdb7070a8ed03d03fac7bb6b88f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 16/31] fix: copying and moving dense tables left stale buckets
 and links, used the wrong allocator and leaked on exceptions

---
 tpp/detail/dense_table.hpp | 121 ++++++++++++++++++++++---------------
 tpp/detail/utility.hpp     |   4 +-
 2 files changed, 76 insertions(+), 49 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 89eec1d..6ede06b 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -218,31 +218,39 @@ namespace tpp::_detail
 		{
 			TPP_IF_LIKELY(bucket_count != 0)
 			{
-				m_dense = std::allocator_traits<dense_allocator>::allocate(dense_alloc(), m_dense_capacity = bucket_count);
-				m_sparse = std::allocator_traits<sparse_allocator>::allocate(sparse_alloc(), m_sparse_size = bucket_count);
-				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+				try
+				{
+					realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, bucket_count);
+					realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, bucket_count);
+				}
+				catch (...)
+				{
+					deallocate_buffers();
+					throw;
+				}
+				clear_buckets();
 			}
 		}
 
 		template<typename Iter>
 		dense_table(Iter first, Iter last, size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : dense_table(distance_or_n(first, last, bucket_count), hash, cmp, alloc) { insert(first, last); }
 
-		dense_table(const dense_table &other) : sparse_alloc_base(allocator_copy(other.sparse_alloc())), dense_alloc_base(allocator_copy(other.dense_alloc())), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
+		dense_table(const dense_table &other) : sparse_alloc_base(allocator_copy(other.sparse_alloc())), dense_alloc_base(allocator_copy(other.dense_alloc())), hash_base(other), cmp_base(other), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
 			copy_data(other);
 		}
-		dense_table(const dense_table &other, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
+		dense_table(const dense_table &other, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(other), cmp_base(other), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
 			copy_data(other);
 		}
 
 		dense_table(dense_table &&other) noexcept(std::is_nothrow_move_constructible_v<sparse_allocator> && std::is_nothrow_move_constructible_v<dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
 		}
-		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<sparse_allocator>::is_always_equal::value && std::allocator_traits<dense_allocator>::is_always_equal::value && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
+				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
 		}
@@ -251,49 +259,39 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
-
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
+				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value || std::allocator_traits<dense_allocator>::propagate_on_container_copy_assignment::value)
+					deallocate_buffers();
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
-				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(other);
-				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_copy_assignment::value)
-				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(other);
-				}
 
 				copy_data(other);
 			}
 			return *this;
 		}
-		dense_table &operator=(dense_table &&other) noexcept(std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		dense_table &operator=(dense_table &&other) noexcept((std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<sparse_allocator>::is_always_equal::value) &&
+		                                                     (std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<dense_allocator>::is_always_equal::value) &&
+		                                                     std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
-
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
+				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value)
+					deallocate_buffers();
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
-				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(std::move(other));
-				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value)
-				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(std::move(other));
-				}
 
 				/* By this point `this` is clear and potentially buffer-less. */
 				move_from(other);
@@ -304,8 +302,7 @@ namespace tpp::_detail
 		~dense_table()
 		{
 			clear_data();
-			if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), m_dense, m_dense_capacity);
-			if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), m_sparse, m_sparse_size);
+			deallocate_buffers();
 		}
 
 		template<typename Iter>
@@ -352,7 +349,7 @@ namespace tpp::_detail
 			if constexpr (is_ordered::value) *header_link() = bucket_link{};
 
 			/* Reset buckets & destroy entries. */
-			std::fill_n(m_sparse, bucket_count(), make_array<key_size>(npos));
+			clear_buckets();
 			clear_data();
 		}
 		void reserve(size_type n)
@@ -833,19 +830,28 @@ namespace tpp::_detail
 				return;
 			}
 
-			/* (re)allocate the bucket & element buffers if needed. */
-			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
-			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
-
-			/* Copy & insert elements from the other table. */
-			auto alloc = allocator_type{dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			try
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.construct(alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
+				/* (re)allocate the bucket & element buffers if needed. */
+				realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
+				clear_buckets();
+				realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
+
+				/* Copy & insert elements from the other table. */
+				auto alloc = allocator_type{dense_alloc()};
+				for (; m_dense_size < other.size(); ++m_dense_size)
+				{
+					const auto &from = other.m_dense[m_dense_size];
+					auto &to = m_dense[m_dense_size];
+					to.construct(alloc, from);
+					(insert_node<Is>(to, m_dense_size), ...);
+				}
+			}
+			catch (...)
+			{
+				clear_data();
+				deallocate_buffers();
+				throw;
 			}
 
 			/* If the node link is ordered, update header offsets to point to the copied data. */
@@ -871,20 +877,30 @@ namespace tpp::_detail
 			}
 
 			/* (re)allocate the bucket & element buffers if needed. */
-			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
-			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			try
+			{
+				realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
+				clear_buckets();
+				realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
+			}
+			catch (...)
+			{
+				deallocate_buffers();
+				throw;
+			}
 
-			/* Move & insert elements from the other table. */
-			auto alloc = allocator_type{dense_alloc()};
+			/* Move & insert elements from the other table. Node links already reference each other, only the header needs to be moved. */
+			auto alloc = allocator_type{dense_alloc()}, other_alloc = allocator_type{other.dense_alloc()};
 			for (; m_dense_size < other.size(); ++m_dense_size)
 			{
 				auto &from = other.m_dense[m_dense_size];
 				auto &to = m_dense[m_dense_size];
-				to.relocate(alloc, alloc, from);
+				to.relocate(alloc, other_alloc, from);
 				(insert_node<Is>(to, m_dense_size), ...);
 			}
+			link_base::operator=(std::move(other));
 			other.m_dense_size = 0;
+			other.clear_buckets();
 		}
 
 		void copy_data(const dense_table &other) { copy_data(std::make_index_sequence<key_size>{}, other); }
@@ -898,6 +914,12 @@ namespace tpp::_detail
 			swap(m_sparse, other.m_sparse);
 			swap(m_dense, other.m_dense);
 		}
+		void clear_buckets() noexcept { std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos)); }
+		void deallocate_buffers()
+		{
+			if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+			if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+		}
 		void clear_data()
 		{
 			auto alloc = allocator_type{dense_alloc()};
@@ -907,7 +929,10 @@ namespace tpp::_detail
 		void move_from(dense_table &other)
 		{
 			if (allocator_eq(sparse_alloc(), other.sparse_alloc()) && allocator_eq(dense_alloc(), other.dense_alloc()))
+			{
+				link_base::operator=(std::move(other));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 8cf8f01..1a35399 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -234,8 +234,10 @@ namespace tpp::_detail
 	{
 		if (buff.second < new_size)
 		{
+			/* Allocate first to keep the old buffer intact if the allocation throws. */
+			const auto new_data = std::allocator_traits<A>::allocate(alloc, new_size);
 			if (buff.first) std::allocator_traits<A>::deallocate(alloc, buff.first, buff.second);
-			buff.first = std::allocator_traits<A>::allocate(alloc, buff.second = new_size);
+			buff = {new_data, new_size};
 		}
 		return buff;
 	}
-- 
2.43.0


From 2834f5216512ab0fa2b12097c7a14e0034adeef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 17/31] fix: erasing from dense tables: null chain of
 unallocated tables, stale iterators of moved elements, did not compile for
 several keys

---
 tpp/detail/dense_table.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6ede06b..f37a7a5 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -431,9 +431,10 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			/* Erasing an element may move any other one, so only the iterator returned by the previous erase is valid. */
+			auto n = std::distance(first, last);
+			for (; n > 0; --n) last = erase(--last);
+			return iterator{to_underlying(last)};
 		}
 
 		void rehash(size_type n)
@@ -608,6 +609,9 @@ namespace tpp::_detail
 			{
 				(move_chain<Is>(end_pos, pos), ...);
 				node->move_from(m_dense[end_pos]);
+
+				/* The next node might have been the one moved. */
+				if (next == m_dense + end_pos) next = node;
 			}
 
 			pop_node();
@@ -725,7 +729,7 @@ namespace tpp::_detail
 			if (const auto end = end_node(); node == end)
 				return to_iter(end);
 
-			const auto slice = chain_slice{find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)...};
+			const auto slice = chain_slice{find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)...};
 			return erase_node<Is...>(pos, node, slice);
 		}
 		iterator do_erase(size_type pos, bucket_node *node)
@@ -736,7 +740,7 @@ namespace tpp::_detail
 		template<std::size_t J, typename T, std::size_t... Is>
 		iterator do_erase(std::index_sequence<Is...>, const T &key, std::size_t h)
 		{
-			for (auto *chain_idx = get_chain<J>(h); *chain_idx != npos;)
+			for (auto *chain_idx = get_chain<J>(h); chain_idx && *chain_idx != npos;)
 			{
 				const auto pos = *chain_idx;
 				auto node = m_dense + pos;
@@ -744,7 +748,7 @@ namespace tpp::_detail
 				{
 					/* Grab other bucket indices that point to `pos`. */
 					chain_slice slice = {};
-					((slice[Is] = find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
+					((slice[Is] = find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
 					slice[J] = chain_idx;
 					return erase_node<J, Is...>(pos, node, slice);
 				}
-- 
2.43.0


From 5ac94c77be1c4a4c5ec5084adec77cef3fd34fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 18/31] fix: insertion into dense tables used arguments and
 hints that refer to elements after they were relocated, and counted elements
 whose construction or hashing failed

---
 tpp/detail/dense_table.hpp | 130 ++++++++++++++++++++-----------------
 1 file changed, 71 insertions(+), 59 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index f37a7a5..d79e537 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -354,7 +354,7 @@ namespace tpp::_detail
 		}
 		void reserve(size_type n)
 		{
-			if (n > m_dense_capacity) resize_data(n);
+			if (n > m_dense_capacity) resize_data(n, [](bucket_node &) {});
 			rehash(static_cast<size_type>(static_cast<float>(n) / m_max_load_factor));
 		}
 
@@ -544,13 +544,43 @@ namespace tpp::_detail
 			return {end_node(), idx};
 		}
 
+		/* Ordered insertion hints refer to nodes that may be relocated, a temporary link is used to keep track of the hint. */
+		struct hint_guard : bucket_link
+		{
+			explicit hint_guard(node_iterator &hint) noexcept : hint(hint)
+			{
+				if constexpr (is_ordered::value)
+					if (hint.link) bucket_link::link(const_cast<bucket_link *>(hint.link));
+			}
+			~hint_guard()
+			{
+				if constexpr (is_ordered::value)
+					if (hint.link)
+					{
+						hint.link = bucket_link::off(bucket_link::prev);
+						bucket_link::unlink();
+					}
+			}
+
+			node_iterator &hint;
+		};
+
 		template<typename... Args>
-		auto push_node(Args &&...args) -> std::pair<size_type, bucket_node *>
+		auto push_node(node_iterator &hint, Args &&...args) -> std::pair<size_type, bucket_node *>
 		{
-			const auto pos = m_dense_size++;
 			auto alloc = allocator_type{dense_alloc()};
-			m_dense[pos].construct(alloc, std::forward<Args>(args)...);
-			return {pos, m_dense + pos};
+			const auto pos = m_dense_size;
+			if (pos != m_dense_capacity)
+				m_dense[pos].construct(alloc, std::forward<Args>(args)...);
+			else
+			{
+				/* Arguments may refer to elements of this table, so the new element has to be created before existing ones are relocated. */
+				const auto guard = hint_guard{hint};
+				resize_data(pos ? pos * 2 : 1, [&](bucket_node &node) { node.construct(alloc, std::forward<Args>(args)...); });
+			}
+
+			m_dense_size = pos + 1;
+			return {pos, to_address(m_dense + pos)};
 		}
 		void pop_node()
 		{
@@ -574,20 +604,21 @@ namespace tpp::_detail
 		}
 
 		template<std::size_t... Is>
-		iterator commit_node(node_iterator hint, size_type pos, chain_slice slice, bucket_hash hashes, bucket_node *node)
+		iterator commit_node(node_iterator hint, size_type pos, bucket_hash hashes, bucket_node *node)
 		{
 			/* Create the bucket and insertion order links. */
 			if constexpr (is_ordered::value) node->link(hint.link ? const_cast<bucket_link *>(hint.link) : back_node());
-			((*slice[Is] = pos), ...); /* Node is always inserted at the end of the chain. */
 
 			((node->template hash<Is>() = hashes[Is]), ...);
+			(insert_node<Is>(*node, pos), ...);
 			return to_iter(node);
 		}
 		template<std::size_t... Is, typename... Args>
-		iterator emplace_node(node_iterator hint, chain_slice slice, bucket_hash hashes, Args &&...args)
+		iterator emplace_node(node_iterator hint, bucket_hash hashes, Args &&...args)
 		{
-			const auto [pos, node] = push_node(std::forward<Args>(args)...);
-			return commit_node<Is...>(hint, pos, slice, hashes, node);
+			maybe_rehash();
+			const auto [pos, node] = push_node(hint, std::forward<Args>(args)...);
+			return commit_node<Is...>(hint, pos, hashes, node);
 		}
 		template<std::size_t... Is>
 		iterator erase_node(size_type pos, bucket_node *node, chain_slice slice)
@@ -621,23 +652,30 @@ namespace tpp::_detail
 		template<typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_emplace(std::index_sequence<Is...>, node_iterator hint, Args &&...args)
 		{
-			maybe_resize(hint);
 			maybe_rehash();
 
 			/* Create a temporary object to check if it already exists within the table. */
-			const auto [pos, tmp] = push_node(std::forward<Args>(args)...);
-			const auto hs = bucket_hash{hash(tmp->template key<Is>())...};
-			const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
-			for (auto [node, chain]: node_list)
-				if (chain && *chain != npos)
-				{
-					/* Found a conflict, return the existing node. */
-					pop_node();
-					return {to_iter(node), false};
-				}
-
-			/* No conflicts found, commit the node. */
-			return {commit_node<Is...>(hint, pos, {node_list[Is].second...}, hs, tmp), true};
+			const auto [pos, tmp] = push_node(hint, std::forward<Args>(args)...);
+			try
+			{
+				const auto hs = bucket_hash{hash(tmp->template key<Is>())...};
+				const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
+				for (auto [node, chain]: node_list)
+					if (chain && *chain != npos)
+					{
+						/* Found a conflict, return the existing node. */
+						pop_node();
+						return {to_iter(node), false};
+					}
+
+				/* No conflicts found, commit the node. */
+				return {commit_node<Is...>(hint, pos, hs, tmp), true};
+			}
+			catch (...)
+			{
+				pop_node();
+				throw;
+			}
 		}
 		template<typename... Args>
 		std::pair<iterator, bool> do_emplace(node_iterator hint, Args &&...args)
@@ -649,21 +687,18 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_try_emplace(std::index_sequence<Is...>, node_iterator hint, std::tuple<Ks...> ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
 			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
 			for (auto [node, chain]: node_list)
-				if (*chain != npos)
+				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
 					return {to_iter(node), false};
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::piecewise_construct, std::move(ks),
+			return {emplace_node<Is...>(hint, hs, std::piecewise_construct, std::move(ks),
 			                            std::forward_as_tuple(std::forward<Args>(args)...)), true};
 		}
 		template<typename... Ks, typename... Args>
@@ -675,9 +710,6 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_insert(std::index_sequence<Is...>, node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
 			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
@@ -689,7 +721,7 @@ namespace tpp::_detail
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::forward<Args>(args)...), true};
+			return {emplace_node<Is...>(hint, hs, std::forward<Args>(args)...), true};
 		}
 		template<typename... Ks, typename... Args>
 		std::pair<iterator, bool> do_insert(node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
@@ -703,14 +735,11 @@ namespace tpp::_detail
 		{
 			static_assert(key_size == 1, "insert_or_assign is only available for keys of size 1");
 
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, replace the entry. Otherwise, emplace a new entry. */
 			const auto h = hash(key);
-			if (const auto [candidate, chain_idx] = find_node<0>(key, h); chain_idx && *chain_idx == npos)
+			if (const auto [candidate, chain_idx] = find_node<0>(key, h); !chain_idx || *chain_idx == npos)
 			{
-				return {emplace_node<0>(hint, {chain_idx}, {h},
+				return {emplace_node<0>(hint, {h},
 				                        std::piecewise_construct,
 				                        std::forward_as_tuple(std::forward<T>(key)),
 				                        std::forward_as_tuple(std::forward<Args>(args)...)),
@@ -781,13 +810,16 @@ namespace tpp::_detail
 				rehash(bucket_count() * 2);
 		}
 
-		void resize_data(size_type capacity)
+		/* Reallocates the dense buffer. The functor is invoked with the node past the last one before existing nodes are relocated. */
+		template<typename F>
+		void resize_data(size_type capacity, F construct_node)
 		{
 			auto &alloc = dense_alloc();
 			auto tmp_dense = std::allocator_traits<dense_allocator>::allocate(alloc, capacity);
 
 			try
 			{
+				construct_node(tmp_dense[m_dense_size]);
 				relocate(alloc, m_dense, m_dense + m_dense_size, alloc, tmp_dense, relocate_node{});
 				std::swap(m_dense_capacity, capacity);
 				std::swap(m_dense, tmp_dense);
@@ -800,26 +832,6 @@ namespace tpp::_detail
 				throw;
 			}
 		}
-		void maybe_resize(node_iterator &hint)
-		{
-			if (m_dense_capacity == m_dense_size)
-			{
-				const auto old_dense = m_dense;
-				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1);
-
-				const auto off_bytes = (m_dense - old_dense) * sizeof(*m_dense);
-				if constexpr (is_ordered::value)
-				{
-					if (!hint.link) return;
-					hint.link += off_bytes / sizeof(bucket_link);
-				}
-				else
-				{
-					if (!hint) return;
-					hint += off_bytes / sizeof(*m_dense);
-				}
-			}
-		}
 
 		template<std::size_t... Is>
 		void copy_data(std::index_sequence<Is...>, const dense_table &other)
-- 
2.43.0


From a88ba80d8a2d75a554a4573625d641ffd0380157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 19/31] fix: rehash, reserve and growth of dense tables
 exceeded the maximum load factor

---
 tpp/detail/dense_table.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index d79e537..074148a 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -355,7 +355,7 @@ namespace tpp::_detail
 		void reserve(size_type n)
 		{
 			if (n > m_dense_capacity) resize_data(n, [](bucket_node &) {});
-			rehash(static_cast<size_type>(static_cast<float>(n) / m_max_load_factor));
+			rehash(to_bucket_count(n));
 		}
 
 		template<std::size_t J, typename T>
@@ -444,7 +444,7 @@ namespace tpp::_detail
 				return;
 
 			/* Adjust the capacity to be at least large enough to fit the current size. */
-			const auto new_cap = std::max(static_cast<size_type>(static_cast<float>(size()) / m_max_load_factor), n);
+			const auto new_cap = std::max(to_bucket_count(size()), n);
 			if (!n || new_cap != m_sparse_size) do_rehash(new_cap);
 		}
 
@@ -477,6 +477,13 @@ namespace tpp::_detail
 
 	private:
 		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
+		/* Returns the minimum amount of buckets required to store `n` elements. */
+		[[nodiscard]] constexpr auto to_bucket_count(size_type n) const noexcept
+		{
+			auto result = static_cast<size_type>(static_cast<float>(n) / m_max_load_factor);
+			while (to_load_factor(result) < n) ++result;
+			return result;
+		}
 
 		[[nodiscard]] constexpr auto &sparse_alloc() noexcept { return sparse_alloc_base::value(); }
 		[[nodiscard]] constexpr auto &sparse_alloc() const noexcept { return sparse_alloc_base::value(); }
@@ -804,10 +811,10 @@ namespace tpp::_detail
 		void do_rehash(size_type new_cap) { do_rehash(std::make_index_sequence<key_size>{}, new_cap); }
 		void maybe_rehash()
 		{
-			TPP_IF_UNLIKELY(bucket_count() == 0)
-				rehash(8);
-			else if (load_factor() >= m_max_load_factor)
-				rehash(bucket_count() * 2);
+			/* Make sure there is enough space for an additional element. */
+			const auto min_size = size() + 1;
+			TPP_IF_UNLIKELY(to_load_factor(bucket_count()) < min_size)
+				rehash(std::max(bucket_count() ? bucket_count() * 2 : 8, to_bucket_count(min_size)));
 		}
 
 		/* Reallocates the dense buffer. The functor is invoked with the node past the last one before existing nodes are relocated. */
-- 
2.43.0


From 10884fb697a09156102353f9a7261586008084bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 20/31] fix: bucket iterators and bucket_size of dense tables
 did not compile

---
 tpp/detail/dense_table.hpp | 71 +++++++++++---------------------------
 1 file changed, 21 insertions(+), 50 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 074148a..f5ebeb8 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -119,82 +119,53 @@ namespace tpp::_detail
 			template<typename>
 			friend class bucket_iterator;
 
-			using value_pointer = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_pointer, typename ValueTraits::pointer>;
-			using value_reference = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_reference, typename ValueTraits::reference>;
 			using node_ptr = typename std::allocator_traits<Alloc>::template rebind_traits<N>::pointer;
 
 		public:
 			using value_type = V;
+			using pointer = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_pointer, typename ValueTraits::pointer>;
+			using reference = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_reference, typename ValueTraits::reference>;
 
-			using reference = std::conditional_t<key_size == 1, value_reference, std::array<value_reference, key_size>>;
-			struct pointer
-			{
-				friend class bucket_iterator;
-
-				constexpr pointer(std::array<value_pointer, key_size> ptr) noexcept : m_ptr(ptr) {}
-
-			public:
-				pointer() = delete;
-
-				constexpr pointer(const pointer &) noexcept = default;
-				constexpr pointer &operator=(const pointer &) noexcept = default;
-				constexpr pointer(pointer &&) noexcept = default;
-				constexpr pointer &operator=(pointer &&) noexcept = default;
-
-				[[nodiscard]] reference operator->() const noexcept { return get(std::make_index_sequence<key_size>{}); }
-
-			private:
-				template<std::size_t J, std::size_t... Js>
-				[[nodiscard]] reference get(std::index_sequence<J, Js...>) const noexcept
-				{
-					if constexpr (sizeof...(Js) != 0)
-						return reference{*m_ptr[Js]...};
-					else
-						return reference{*m_ptr[J]};
-				}
-
-				std::array<value_pointer, key_size> m_ptr = {};
-			};
-
-			using size_type = typename bucket_node::size_type;
-			using difference_type = typename bucket_node::difference_type;
+			using size_type = typename traits_t::size_type;
+			using difference_type = typename traits_t::difference_type;
 			using iterator_category = std::forward_iterator_tag;
 
 		public:
 			constexpr bucket_iterator() noexcept = default;
-			template<typename U, typename = std::enable_if_t<!std::is_same_v<N, U> && std::is_constructible_v<node_ptr, typename bucket_iterator<U>::node_ptr>>>
-			constexpr bucket_iterator(const bucket_iterator<U> &other) noexcept : m_base(other.m_base), m_pos(other.m_pos) {}
+			template<typename U, typename = std::enable_if_t<!std::is_same_v<N, U> && std::is_convertible_v<U *, N *>>>
+			constexpr bucket_iterator(const bucket_iterator<U> &other) noexcept : m_base(other.m_base), m_bucket(other.m_bucket), m_key(other.m_key), m_pos(other.m_pos) {}
 
-			constexpr explicit bucket_iterator(node_ptr base, bucket_pos pos) noexcept : m_base(base), m_pos(pos) {}
+			constexpr explicit bucket_iterator(node_ptr base, const bucket_pos *bucket) noexcept : m_base(base), m_bucket(bucket), m_pos((*bucket)[0]) { skip_empty(); }
 
 			constexpr bucket_iterator operator++(int) noexcept
 			{
 				auto tmp = *this;
-				increment(std::make_index_sequence<key_size>{});
+				operator++();
 				return tmp;
 			}
 			constexpr bucket_iterator &operator++() noexcept
 			{
-				increment(std::make_index_sequence<key_size>{});
+				m_pos = m_base[m_pos].next[m_key];
+				skip_empty();
 				return *this;
 			}
 
-			[[nodiscard]] constexpr pointer operator->() const noexcept { return pointer{&node()->value()}; }
-			[[nodiscard]] reference operator*() const noexcept { return *operator->(); }
+			[[nodiscard]] constexpr pointer operator->() const noexcept { return pointer{&m_base[m_pos].value()}; }
+			[[nodiscard]] constexpr reference operator*() const noexcept { return *operator->(); }
 
-			[[nodiscard]] constexpr bool operator==(const bucket_iterator &other) const noexcept { return m_base == other.m_base && m_pos == other.m_pos; }
+			[[nodiscard]] constexpr bool operator==(const bucket_iterator &other) const noexcept { return m_pos == other.m_pos && (m_pos == npos || m_key == other.m_key); }
 #if (__cplusplus < 202002L && (!defined(_MSVC_LANG) || _MSVC_LANG < 202002L))
-			[[nodiscard]] constexpr bool operator!=(const bucket_iterator &other) const noexcept { return m_base != other.m_base || m_pos != other.m_pos; }
+			[[nodiscard]] constexpr bool operator!=(const bucket_iterator &other) const noexcept { return !operator==(other); }
 #endif
 
 		private:
-			[[nodiscard]] constexpr node_ptr node() const noexcept { return m_base + m_pos; }
-
-			template<std::size_t... Is>
-			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = node()->next[Is]), ...); }
+			/* Every key of the table has a chain of its own within the bucket, move on to the next one at the end of a chain. */
+			constexpr void skip_empty() noexcept { while (m_pos == npos && m_key + 1 < key_size) m_pos = (*m_bucket)[++m_key]; }
 
 			node_ptr m_base = {};
-			bucket_pos m_pos = 0;
+			const bucket_pos *m_bucket = {};
+			size_type m_key = 0;
+			size_type m_pos = npos;
 		};
 
 	public:
@@ -332,8 +303,8 @@ namespace tpp::_detail
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return to_load_factor(bucket_count()); }
 		[[nodiscard]] constexpr float load_factor() const noexcept { return static_cast<float>(size()) / static_cast<float>(bucket_count()); }
 
-		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, m_sparse[n]}; }
-		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, m_sparse[n]}; }
+		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, to_address(m_sparse + n)}; }
+		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, to_address(m_sparse + n)}; }
 		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{}; }
 		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{}; }
 
-- 
2.43.0


From 4b730081b1bc17811eade8d308fa628142b48529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 21/31] fix: arithmetic of random access iterators did not
 compile, and they were declared contiguous while values are parts of larger
 nodes

---
 tpp/detail/table_common.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 2b8c654..1da69f6 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -627,8 +627,9 @@ namespace tpp::_detail
 	struct iterator_concept_base {};
 
 #if (__cplusplus >= 202002L || (defined(_MSVC_LANG) && _MSVC_LANG >= 202002L))
+	/* Values are stored as part of nodes, so even iterators of contiguous nodes are only random-access. */
 	template<std::contiguous_iterator I>
-	struct iterator_concept_base<I> { using iterator_concept = std::contiguous_iterator_tag; };
+	struct iterator_concept_base<I> { using iterator_concept = std::random_access_iterator_tag; };
 #endif
 
 	template<typename, typename = void>
@@ -646,14 +647,24 @@ namespace tpp::_detail
 	template<typename I, typename T>
 	struct random_access_iterator_base<I, T, std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>>>
 	{
-		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept { return iter() += n; }
-		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept { return iter() -= n; }
+		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() += n;
+			return *static_cast<I *>(this);
+		}
+		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() -= n;
+			return *static_cast<I *>(this);
+		}
 
 		[[nodiscard]] constexpr I operator+(typename iter_diff<T>::type n) const noexcept { return I{iter() + n}; }
 		[[nodiscard]] constexpr I operator-(typename iter_diff<T>::type n) const noexcept { return I{iter() - n}; }
 		[[nodiscard]] constexpr typename iter_diff<T>::type operator-(const I &other) const noexcept { return iter() - other.m_iter; }
 
-		[[nodiscard]] constexpr auto &operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
+		[[nodiscard]] constexpr decltype(auto) operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
+
+		[[nodiscard]] friend constexpr I operator+(typename iter_diff<T>::type n, const I &other) noexcept { return other + n; }
 
 	private:
 		[[nodiscard]] constexpr auto &iter() noexcept { return static_cast<I *>(this)->m_iter; }
-- 
2.43.0


From 9c85b885f744d0e52c5df985d52dbe5f38334deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 22/31] fix: comparison of map references was not
 lexicographical in C++17 and did not exist in C++20

---
 tpp/detail/table_common.hpp | 15 ++++++++-------
 tpp/detail/utility.hpp      |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 1da69f6..7f1d7b6 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -810,20 +810,21 @@ namespace tpp::_detail
 
 #if (__cplusplus < 202002L && (!defined(_MSVC_LANG) || _MSVC_LANG < 202002L))
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first && noexcept(second == other.second)))  { return first == other.first && second == other.second; }
+		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const { return first == other.first && second == other.second; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator!=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first != other.first && noexcept(second != other.second))) { return first != other.first || second != other.second; }
+		[[nodiscard]] constexpr bool operator!=(const packed_map_ref<U, V> &other) const { return !operator==(other); }
+		/* Same as with pairs, references are ordered lexicographically. */
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first >= other.first && noexcept(second >= other.second)))  { return first >= other.first && second >= other.second; }
+		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const { return first < other.first || (!(other.first < first) && second < other.second); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first <= other.first && noexcept(second <= other.second)))  { return first <= other.first && second <= other.second; }
+		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const { return other < *this; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const noexcept(noexcept(first > other.first && noexcept(second > other.second)))  { return first > other.first && second > other.second; }
+		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const { return !(other < *this); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const noexcept(noexcept(first < other.first && noexcept(second < other.second))) { return first < other.first && second < other.second; }
+		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const { return !operator<(other); }
 #else
 		template<typename U, typename V> requires std::equality_comparable_with<K, U> && std::equality_comparable_with<M, V>
-		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first && noexcept(second == other.second)))  { return first == other.first && second == other.second; }
+		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first) && noexcept(second == other.second))  { return first == other.first && second == other.second; }
 		template<typename U, typename V> requires(requires (const K &k, const M &m, const U &u, const V &v) { synth_three_way(k, u); synth_three_way(m, v); })
 		[[nodiscard]] constexpr auto operator<=>(const packed_map_ref<U, V> &other) const noexcept(noexcept(synth_three_way(first, other.first)) && noexcept(synth_three_way(second, other.second))) -> std::common_comparison_category_t<synth_three_way_result<K, U>, synth_three_way_result<M, V>>
 		{
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 1a35399..60c4fc9 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -261,9 +261,9 @@ namespace tpp::_detail
 
 #if (__cplusplus >= 202002L || (defined(_MSVC_LANG) && _MSVC_LANG >= 202002L))
 	template<typename T, typename U> requires std::three_way_comparable_with<T, U>
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
+	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const U &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
 	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const T &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t < u) && noexcept(u < t))
+	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const U &u) noexcept(noexcept(t < u) && noexcept(u < t))
 	{
 		if (t < u)
 			return std::weak_ordering::less;
-- 
2.43.0


From 412de4449cf0190b5664b9e7a8e38d1961483899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:55 +0000
Subject: [PATCH 23/31] fix: swap accepts unequal allocators that propagate on
 swap

---
 tpp/detail/dense_table.hpp |  7 ++++---
 tpp/detail/swiss_table.hpp | 10 ++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index f5ebeb8..5146306 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -436,11 +436,12 @@ namespace tpp::_detail
 
 			if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_swap::value)
 				swap(sparse_alloc(), other.sparse_alloc());
+			else
+				TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
 			if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_swap::value)
 				swap(dense_alloc(), other.dense_alloc());
-
-			TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
-			TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
+			else
+				TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
 
 			swap_buffers(other);
 			swap(m_max_load_factor, other.m_max_load_factor);
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index ad1a5dd..b7cd634 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -570,8 +570,6 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()) && allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
-
 			using std::swap;
 			swap(capacity, other.capacity);
 			swap(m_metadata, other.m_metadata);
@@ -582,8 +580,12 @@ namespace tpp::_detail
 			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
+			else
+				TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()), "Swapped allocators must be equal");
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
+			else
+				TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 			swap_data(other);
 		}
 
@@ -706,8 +708,6 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
-
 			using std::swap;
 			swap(capacity, other.capacity);
 			swap(m_data, other.m_data);
@@ -717,6 +717,8 @@ namespace tpp::_detail
 			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
+			else
+				TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 			swap_data(other);
 		}
 
-- 
2.43.0


From 7b1e75b0d85c93a11bfe1fbc0ecf0ea575ea3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 24/31] fix: any is_transparent type makes functors transparent
 (std::equal_to<> did not compile)

---
 tpp/detail/table_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 7f1d7b6..8fa7454 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -186,7 +186,7 @@ namespace tpp::_detail
 	template<typename, typename = void>
 	struct is_transparent : std::false_type {};
 	template<typename T>
-	struct is_transparent<T, std::void_t<typename T::is_transparent>> : T::is_transparent {};
+	struct is_transparent<T, std::void_t<typename T::is_transparent>> : std::true_type {};
 
 	template<typename T>
 	struct has_key_size
-- 
2.43.0


From efe0a148fd3f6b909ac0ca89704f3c0bc9c3e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:30 +0000
Subject: [PATCH 25/31] fix: inserting a range of iterators of the same
 container type did not compile

---
 tpp/detail/dense_table.hpp | 2 +-
 tpp/detail/swiss_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 5146306..8416523 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -350,7 +350,7 @@ namespace tpp::_detail
 
 		template<typename T, typename = std::enable_if_t<!(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
 		std::pair<iterator, bool> insert(T &&value) TPP_REQUIRES((std::is_constructible_v<V, T>)) { return do_emplace({}, std::forward<T>(value)); }
-		template<typename T, typename = std::enable_if_t<!(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
+		template<typename T, typename = std::enable_if_t<std::is_constructible_v<V, T> && !(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
 		iterator insert(const_iterator hint, T &&value) TPP_REQUIRES((std::is_constructible_v<V, T>)) { return do_emplace(to_underlying(hint), std::forward<T>(value)).first; }
 
 		template<typename Iter>
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index b7cd634..ec2864c 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -929,7 +929,7 @@ namespace tpp::_detail
 		{
 			return do_emplace({}, std::forward<T>(value));
 		}
-		template<typename T, typename = std::enable_if_t<!(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
+		template<typename T, typename = std::enable_if_t<std::is_constructible_v<V, T> && !(std::is_convertible_v<T &&, insert_type &&> || std::is_convertible_v<T &&, value_type &&>)>>
 		iterator insert(const_iterator hint, T &&value) TPP_REQUIRES((std::is_constructible_v<V, T>))
 		{
 			return do_emplace(to_underlying(hint), std::forward<T>(value)).first;
-- 
2.43.0


From 51f91ca2f56ef657c621e1cd147c14b669ca70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:15 +0000
Subject: [PATCH 26/31] fix: map elements convert to pairs, so maps can be
 filled from sparse and dense map ranges

---
 tpp/detail/table_common.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 8fa7454..014ab4f 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -6,6 +6,7 @@
 
 #include <initializer_list>
 #include <stdexcept>
+#include <tuple>
 
 #include "utility.hpp"
 
@@ -807,6 +808,8 @@ namespace tpp::_detail
 		constexpr packed_map_ref(const std::pair<U, V> &ref) noexcept : packed_map_ref(ref.first, ref.second) {}
 
 		[[nodiscard]] constexpr operator std::pair<K &, M &>() const noexcept { return {first, second}; }
+		template<typename U, typename V, typename = std::enable_if_t<!std::is_reference_v<U> && !std::is_reference_v<V> && std::is_constructible_v<U, K &> && std::is_constructible_v<V, M &>>>
+		[[nodiscard]] constexpr operator std::pair<U, V>() const { return {std::piecewise_construct, std::forward_as_tuple(first), std::forward_as_tuple(second)}; }
 
 #if (__cplusplus < 202002L && (!defined(_MSVC_LANG) || _MSVC_LANG < 202002L))
 		template<typename U, typename V>
-- 
2.43.0


From 71085e54e40587d0de16f833799b4a0ab9e07e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:15 +0000
Subject: [PATCH 27/31] fix: comparing map elements in C++20 did not compile
 for types without <=>

---
 tpp/detail/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 60c4fc9..a2ddc04 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -261,9 +261,9 @@ namespace tpp::_detail
 
 #if (__cplusplus >= 202002L || (defined(_MSVC_LANG) && _MSVC_LANG >= 202002L))
 	template<typename T, typename U> requires std::three_way_comparable_with<T, U>
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const U &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
 	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const T &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const U &u) noexcept(noexcept(t < u) && noexcept(u < t))
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t < u) && noexcept(u < t))
 	{
 		if (t < u)
 			return std::weak_ordering::less;
-- 
2.43.0


From 12aaf4e6aaac195f44c9bde66637818c9a815ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:08 +0000
Subject: [PATCH 28/31] fix: functor types used for both hashing and comparison
 did not compile

---
 tpp/detail/dense_table.hpp  |  4 ++--
 tpp/detail/swiss_table.hpp  |  4 ++--
 tpp/detail/table_common.hpp | 16 ++++++++--------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 8416523..0e601b7 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -68,7 +68,7 @@ namespace tpp::_detail
 	class dense_table :
 			empty_base<typename dense_table_traits<I, V, K, Kh, Kc, Alloc, ValueTraits>::sparse_allocator>,
 			empty_base<typename dense_table_traits<I, V, K, Kh, Kc, Alloc, ValueTraits>::dense_allocator>,
-			empty_base<Kh>, empty_base<Kc>, empty_base<typename ValueTraits::link_type>
+			empty_base<Kh>, empty_base<Kc, 1>, empty_base<typename ValueTraits::link_type>
 	{
 		using traits_t = dense_table_traits<I, V, K, Kh, Kc, Alloc, ValueTraits>;
 		using link_base = empty_base<typename ValueTraits::link_type>;
@@ -107,7 +107,7 @@ namespace tpp::_detail
 		using chain_slice = std::array<size_type *, key_size>;
 
 		using hash_base = empty_base<hasher>;
-		using cmp_base = empty_base<key_equal>;
+		using cmp_base = empty_base<key_equal, 1>;
 		using sparse_alloc_base = empty_base<sparse_allocator>;
 		using dense_alloc_base = empty_base<dense_allocator>;
 
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index ec2864c..9e79e82 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -733,7 +733,7 @@ namespace tpp::_detail
 	};
 
 	template<typename I, typename V, typename K, typename Kh, typename Kc, typename Alloc, typename ValueTraits>
-	class swiss_table : public swiss_node_traits<V, Alloc, ValueTraits>, empty_base<Kh>, empty_base<Kc>, empty_base<typename ValueTraits::link_type>
+	class swiss_table : public swiss_node_traits<V, Alloc, ValueTraits>, empty_base<Kh>, empty_base<Kc, 1>, empty_base<typename ValueTraits::link_type>
 	{
 		using traits_t = swiss_table_traits<I, V, K, Kh, Kc, Alloc, ValueTraits>;
 		using link_base = empty_base<typename ValueTraits::link_type>;
@@ -794,7 +794,7 @@ namespace tpp::_detail
 
 	private:
 		using hash_base = empty_base<hasher>;
-		using cmp_base = empty_base<key_equal>;
+		using cmp_base = empty_base<key_equal, 1>;
 
 		[[nodiscard]] static constexpr std::pair<std::size_t, meta_byte> decompose_hash(std::size_t h) noexcept
 		{
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 014ab4f..49382b3 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -12,15 +12,15 @@
 
 namespace tpp::_detail
 {
-	/* Helper type used to store potentially empty objects. */
-	template<typename, typename = void>
+	/* Helper type used to store potentially empty objects. `Id` tells apart multiple bases of the same object type. */
+	template<typename, std::size_t Id = 0, typename = void>
 	struct empty_base;
 
 	template<typename T>
 	using ebo_candidate = std::conjunction<std::is_empty<T>, std::negation<std::is_final<T>>>;
 
-	template<typename T>
-	struct empty_base<T, std::enable_if_t<ebo_candidate<T>::value>> : T
+	template<typename T, std::size_t Id>
+	struct empty_base<T, Id, std::enable_if_t<ebo_candidate<T>::value>> : T
 	{
 		constexpr empty_base() noexcept(std::is_nothrow_default_constructible_v<T>) = default;
 		constexpr empty_base(const empty_base &other) noexcept(std::is_nothrow_copy_constructible_v<T>) = default;
@@ -48,8 +48,8 @@ namespace tpp::_detail
 		}
 	};
 
-	template<typename T>
-	struct empty_base<T, std::enable_if_t<!ebo_candidate<T>::value>>
+	template<typename T, std::size_t Id>
+	struct empty_base<T, Id, std::enable_if_t<!ebo_candidate<T>::value>>
 	{
 		constexpr empty_base() noexcept(std::is_nothrow_default_constructible_v<T>) = default;
 		constexpr empty_base(const empty_base &other) noexcept(std::is_nothrow_copy_constructible_v<T>) = default;
@@ -80,8 +80,8 @@ namespace tpp::_detail
 		T m_value;
 	};
 
-	template<typename T>
-	void swap(empty_base<T> &a, empty_base<T> &b) noexcept(std::is_nothrow_swappable_v<T>) { a.swap(b); }
+	template<typename T, std::size_t Id>
+	void swap(empty_base<T, Id> &a, empty_base<T, Id> &b) noexcept(std::is_nothrow_swappable_v<T>) { a.swap(b); }
 
 	template<typename I, typename V, typename K, typename Kh, typename Kc, typename A>
 	struct table_traits
-- 
2.43.0


From a6ace39a76f310fcf3d03e15f33fda103f07d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 29/31] fix: the NEON control block implementation did not
 compile and counted an all-available block wrong

---
 tpp/detail/swiss_table.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9e79e82..556ba75 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -200,7 +200,7 @@ namespace tpp::_detail
 #if defined(TPP_HAS_SSE2)
 		explicit meta_block(const meta_byte *bytes) noexcept { value = _mm_loadu_si128(reinterpret_cast<const block_value *>(bytes)); }
 #elif defined(TPP_HAS_NEON)
-		explicit meta_block(const meta_byte *bytes) noexcept { value = vld1_u8(reinterpret_cast<const block_value *>(bytes)); }
+		explicit meta_block(const meta_byte *bytes) noexcept { value = vld1_u8(reinterpret_cast<const std::uint8_t *>(bytes)); }
 #else
 		explicit meta_block(const meta_byte *bytes) noexcept { value = read_unaligned<block_value>(bytes); }
 #endif
@@ -288,12 +288,13 @@ namespace tpp::_detail
 
 	std::size_t meta_block::count_available() const noexcept
 	{
-		return ctz(vget_lane_u64(vreinterpret_u64_u8(vcle_s8(vdup_n_s8(std::int8_t(meta_byte::sentinel)), vreinterpret_s8_u8(value))), 0)) >> 3;
+		const auto mask = vget_lane_u64(vreinterpret_u64_u8(vcle_s8(vdup_n_s8(std::int8_t(meta_byte::sentinel)), vreinterpret_s8_u8(value))), 0);
+		return mask ? ctz(mask) >> 3 : sizeof(value);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
 		/* Mask all occupied. */
-		const auto mask = vreinterpret_u64_u8(vcgt_s8(vreinterpret_s8_u8(value), vdup_n_s8(std::int8_t(meta_byte::sentinel))));
+		const auto mask = vcgt_s8(vreinterpret_s8_u8(value), vdup_n_s8(std::int8_t(meta_byte::sentinel)));
 		const auto deleted = vreinterpret_u8_s8(vdup_n_s8(std::int8_t(meta_byte::deleted)));
 		const auto empty = vreinterpret_u8_s8(vdup_n_s8(std::int8_t(meta_byte::empty)));
 
-- 
2.43.0


From ec3c7e1fa3916ea9ad63310bd5c953641274f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:50 +0000
Subject: [PATCH 30/31] fix: generic bit counts were off by one

---
 tpp/detail/swiss_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 556ba75..1f6bfe0 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -86,7 +86,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1};
 		std::size_t result = 0;
-		while ((value & (mask << result++)) == T{});
+		while ((value & (mask << result)) == T{}) ++result;
 		return result;
 	}
 	template<typename T>
@@ -94,7 +94,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1} << (std::numeric_limits<T>::digits - 1);
 		std::size_t result = 0;
-		while ((value & (mask >> result++)) == T{});
+		while ((value & (mask >> result)) == T{}) ++result;
 		return result;
 	}
 
-- 
2.43.0


From 056e39d4b341177c9e90f06350f42e32cda873a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:50 +0000
Subject: [PATCH 31/31] fix: leading zero count of the Visual C++ branch was
 off by one

---
 tpp/detail/swiss_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 1f6bfe0..a2994f0 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -157,14 +157,14 @@ namespace tpp::_detail
 		{
 			unsigned long result = 0;
 			_BitScanReverse(&result, static_cast<unsigned long>(value));
-			return std::numeric_limits<T>::digits - static_cast<std::size_t>(result);
+			return std::numeric_limits<T>::digits - 1 - static_cast<std::size_t>(result);
 		}
 #ifdef _WIN64
 		if constexpr (sizeof(T) <= sizeof(unsigned __int64))
 		{
 			unsigned long result = 0;
 			_BitScanReverse64(&result, static_cast<unsigned __int64>(value));
-			return std::numeric_limits<T>::digits - static_cast<std::size_t>(result);
+			return std::numeric_limits<T>::digits - 1 - static_cast<std::size_t>(result);
 		}
 #endif
 		return generic_clz(value);
-- 
2.43.0

