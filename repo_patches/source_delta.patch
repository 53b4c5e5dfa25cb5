From a8aa22bd16c83df88d560c05fff4a4dd132f66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 01/65] fix: \B is the negation of \b, not another spelling of
 it

---
 include/ctre/actions/boundaries.inc.hpp | 2 +-
 include/ctre/first.hpp                  | 5 +++++
 include/ctre/starts_with_anchor.hpp     | 6 ++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/boundaries.inc.hpp b/include/ctre/actions/boundaries.inc.hpp
index 097bc9d..aa84780 100644
--- a/include/ctre/actions/boundaries.inc.hpp
+++ b/include/ctre/actions/boundaries.inc.hpp
@@ -8,7 +8,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index bc54b76..b35046c 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -51,6 +51,11 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 62c28b9..72c3dc9 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -28,6 +28,12 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	// check if all options starts with anchor or if they are empty, there is an anchor behind them
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-- 
2.43.0


From d6c977e6e142aeeb00ba5d2fe2164325b34621b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 02/65] fix: \e is the escape character 0x1B

---
 include/ctre/actions/characters.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/characters.inc.hpp b/include/ctre/actions/characters.inc.hpp
index 4aa7ffd..9835837 100644
--- a/include/ctre/actions/characters.inc.hpp
+++ b/include/ctre/actions/characters.inc.hpp
@@ -15,7 +15,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-- 
2.43.0


From c25ee4ff8e81a9e6996c0903e2a1f6af63b759c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 03/65] fix: search must not skip later positions when the
 anchored repetition can be omitted

---
 include/ctre/starts_with_anchor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 72c3dc9..70bd7aa 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -61,19 +61,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
-- 
2.43.0


From 8732e8dd6cb60d6ef0da72acbcfbc79e803d4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 04/65] fix: split with an anchored separator ends instead of
 repeating the rest of the subject forever

---
 include/ctre/iterators.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 7964914..dd7f8f5 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -114,10 +114,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
 		current_match.set_start_mark(current);
 		current_match.matched();
+		// the end is there set by search_method (but it didn't move from the start if the pattern is anchored)
 		current = current_match.template get<0>().end();
+		while (current != end) ++current;
+		current_match.set_end_mark(current);
 		last_match = true;
 	}
 
-- 
2.43.0


From dde8ab14d8f00507ba38bcdeb300b159fbfc9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 05/65] fix: enumerating, splitting and tokenizing advance past
 empty matches instead of repeating them forever

---
 include/ctre/iterators.hpp | 24 +++++++++++++++++++++++-
 include/ctre/wrapper.hpp   | 16 +++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index dd7f8f5..ffadacf 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -49,7 +49,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 		
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		auto next = current;
+		
+		// don't find same empty match again
+		if (current_match.begin() == current_match.end()) ++next;
+		
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, next, end);
 		
 		if (current_match) {
 			current = current_match.template get<0>().end();
@@ -113,6 +118,20 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		current = tmp;
 	}
 	
+	// an empty match doesn't separate anything, look for the first non-empty one
+	constexpr CTRE_FORCE_INLINE void skip_empty_matches() {
+		auto next = current;
+		while (current_match && current_match.begin() == current_match.end()) {
+			next = current_match.end();
+			current_match = value_type{};
+			if (next == end) {
+				current_match.set_end_mark(next);
+			} else {
+				current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, ++next, end);
+			}
+		}
+	}
+	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
 		current_match.set_start_mark(current);
 		current_match.matched();
@@ -128,6 +147,8 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(regex_split_iterator &&) noexcept = default;
 
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(BeginIterator begin, EndIterator last) noexcept: orig_begin{begin}, current{begin}, end{last}, current_match{RE::template exec_with_result_iterator<ResultIterator>(current, last)} {
+		skip_empty_matches();
+		
 		if (current_match) {
 			modify_match();
 		} else {
@@ -148,6 +169,7 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		}
 	
 		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		skip_empty_matches();
 	
 		if (current_match) {
 			modify_match();
diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index b31becf..57b9ff2 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -116,6 +116,20 @@ struct starts_with_method {
 	}
 };
 
+// token must not be empty (it would be there forever)
+struct token_method {
+	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin orig_begin, IteratorBegin begin, IteratorEnd end, RE) noexcept {
+		auto out = starts_with_method::exec<Modifier, ResultIterator>(orig_begin, begin, end, RE{});
+		
+		if (out && out.begin() == out.end()) out.unmatch();
+		return out;
+	}
+
+	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
+		return exec<Modifier, ResultIterator>(begin, begin, end, RE{});
+	}
+};
+
 // wrapper which calls search on input
 struct range_method {
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
@@ -129,7 +143,7 @@ struct range_method {
 struct tokenize_method {
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
 		using result_iterator = std::conditional_t<std::is_same_v<ResultIterator, void>, IteratorBegin, ResultIterator>;
-		using wrapped_regex = regular_expression<RE, starts_with_method, Modifier>;
+		using wrapped_regex = regular_expression<RE, token_method, Modifier>;
 
 		return regex_range<IteratorBegin, IteratorEnd, wrapped_regex, result_iterator>(begin, end);
 	}
-- 
2.43.0


From 5b742f8d9b07e5aa43083abd162312324b882239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 06/65] fix: mandatory cycles and atomic groups may be empty,
 optional ones never loop without consuming

---
 include/ctre/evaluation.hpp      | 25 ++++++++++++++-----------
 include/ctre/flags_and_modes.hpp |  5 +++++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7e9f0e4..0bf80e4 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -278,7 +278,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		size_t i{0};
 	
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto outer_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
@@ -309,8 +309,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			++i;
 		}
 	
-		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		// rest of regex was already tried after the last cycle
+		return not_matched;
 	}
 }
 
@@ -325,7 +325,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
 			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// (mandatory cycles can be empty)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? can_be_empty_match(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -360,21 +361,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -394,10 +395,12 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 #endif
 	else {
+		const Iterator backup_current = current;
+	
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
@@ -409,10 +412,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
diff --git a/include/ctre/flags_and_modes.hpp b/include/ctre/flags_and_modes.hpp
index 19c848d..a63baa8 100644
--- a/include/ctre/flags_and_modes.hpp
+++ b/include/ctre/flags_and_modes.hpp
@@ -75,6 +75,11 @@ constexpr CTRE_FORCE_INLINE auto not_empty_match(flags f) {
 	return f;
 }
 
+constexpr CTRE_FORCE_INLINE auto can_be_empty_match(flags f) {
+	f.block_empty_match = false;
+	return f;
+}
+
 constexpr CTRE_FORCE_INLINE auto consumed_something(flags f, bool condition = true) {
 	if (condition) f.block_empty_match = false;
 	return f;
-- 
2.43.0


From e0b0fc0629cb0d86af8a6e09535b3988fdcbc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 07/65] fix: patterns with mode switches, rejects or double
 negated sets next to a repeat failed to compile

---
 include/ctre/first.hpp | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index b35046c..d7a7291 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -34,6 +34,22 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return l;
+}
+
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
+// mode can change meaning of everything after it
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -375,17 +391,28 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// double negation (content of the negative set inside is only approximated)
+template <typename... Content, typename CB> 
+constexpr int64_t negative_helper(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> 
+constexpr int64_t negative_helper(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
 	start = negative_helper(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
-template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+template <typename Head, typename... Rest, typename CB> constexpr void negative_set_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	start = negative_helper(Head{}, cb, start);
-	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
+	negative_set_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
-template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+template <typename CB> constexpr void negative_set_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	if (start < (std::numeric_limits<int64_t>::max)()) {
 		cb(start, (std::numeric_limits<int64_t>::max)());
 	}
@@ -503,11 +530,14 @@ public:
 	}
 	template <typename... Content> constexpr bool check(ctre::negative_set<Content...> nset) {
 		bool collision = false;
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			collision |= this->check(low, high);
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
@@ -532,7 +562,7 @@ public:
 		used = 1;
 	}
 	template <typename... Content> constexpr void populate(ctre::negative_set<Content...> nset) {
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			this->insert(low, high);
 		});
 	}
-- 
2.43.0


From a68df5bc203164702ca6c3905aee44f1a84f7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 08/65] fix: greedy repeat is possessive only when it cannot
 change the result (case-insensitive and multiline mode, asserts)

---
 include/ctre/evaluation.hpp | 11 ++++-
 include/ctre/first.hpp      | 87 ++++++++++++++++++++++++++-----------
 2 files changed, 71 insertions(+), 27 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 0bf80e4..fd78a7b 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -390,11 +390,20 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+	else if constexpr (!collides<true>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
+#ifndef CTRE_DISABLE_GREEDY_OPT
+		if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			// it's ok only without case-insensitive and multiline mode
+			if (!is_case_insensitive(f) && !multiline_mode(f)) {
+				return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+			}
+		}
+	
+#endif
 		const Iterator backup_current = current;
 	
 		// A..B
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index d7a7291..4843937 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -7,36 +7,42 @@
 namespace ctre {
 	
 struct can_be_anything {};
-	
+
+// nothing more needs to be matched
+struct can_be_nothing {};
+
+// only a line end in the multiline mode
+struct can_be_line_end {};
+
 
 template <typename... Content> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<accept, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<accept, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_cycle_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_cycle_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_lookahead_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -61,21 +67,31 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 	return first(l, ctll::list<Tail...>{});
 }
 
+// assert which doesn't consume anything, result of it depends on the position, so if there is nothing to be matched after it it can be anything
+template <typename... Content, typename... Next> 
+constexpr auto first_after_assert(ctll::list<Content...>, ctll::list<Next...>) noexcept {
+	if constexpr ((std::is_same_v<Next, can_be_nothing> || ... || false)) {
+		return ctll::list<can_be_anything>{};
+	} else {
+		return ctll::list<Content..., Next...>{};
+	}
+}
+
 // boundary
 template <typename... Content, typename CharLike, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 template <typename... Content, typename CharLike, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 template <typename... Content, typename... Tail> 
@@ -84,21 +100,19 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
 	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 // sequence
@@ -420,7 +434,7 @@ template <typename CB> constexpr void negative_set_helper(ctre::negative_set<>,
 
 // simple fixed set
 // TODO: this needs some optimizations
-template <size_t Capacity> class point_set {
+template <size_t Capacity, bool AnyMode = false> class point_set {
 	struct point {
 		int64_t low{};
 		int64_t high{};
@@ -494,7 +508,17 @@ public:
 		insert_point(low, high);
 		//insert_point(high, low);
 	}
+	constexpr bool check_case_insensitive(int64_t low, int64_t high, int64_t first, int64_t last, int64_t shift) {
+		// only part which is between first and last has other case
+		if (low < first) low = first;
+		if (high > last) high = last;
+		return low <= high && check_exactly(low + shift, high + shift);
+	}
 	constexpr bool check(int64_t low, int64_t high) {
+		if (check_exactly(low, high)) return true;
+		return AnyMode && (check_case_insensitive(low, high, 'a', 'z', 'A' - 'a') || check_case_insensitive(low, high, 'A', 'Z', 'a' - 'A'));
+	}
+	constexpr bool check_exactly(int64_t low, int64_t high) {
 		for (const auto & r: *this) {
 			if (r.low <= low && low <= r.high) {
 				return true;
@@ -519,6 +543,12 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	constexpr bool check(can_be_nothing) {
+		return false;
+	}
+	constexpr bool check(can_be_line_end) {
+		return AnyMode && check('\n', '\n');
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
@@ -556,6 +586,10 @@ public:
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
 	}
+	constexpr void populate(can_be_nothing) { }
+	constexpr void populate(can_be_line_end) {
+		if (AnyMode) insert('\n', '\n');
+	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
 		points[0].high = (std::numeric_limits<int64_t>::max)();
@@ -574,10 +608,11 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
+// (AnyMode: take case-insensitive and multiline mode into account)
+template <bool AnyMode = false, typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set;
+	point_set<capacity, AnyMode> set;
 	set.populate(rhs);
 	
 	return set.check(lhs);
-- 
2.43.0


From c5cad09ef0cc0f74584f2803e0fd3369aeee0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 09/65] fix: adjacent repeats are merged in their order
 (possessive ones differ)

---
 include/ctre/actions/fusion.inc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bccb20b..1a2f6d1 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -48,21 +48,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
-- 
2.43.0


From a27ca1f2e40076037e65927fbab3ff2687c296ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 10/65] fix: captures inside lookbehinds and atomic groups are
 part of the result

---
 include/ctre/find_captures.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/ctre/find_captures.hpp b/include/ctre/find_captures.hpp
index 43a8f77..747f435 100644
--- a/include/ctre/find_captures.hpp
+++ b/include/ctre/find_captures.hpp
@@ -109,6 +109,21 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 }
 
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_positive<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_negative<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
 
 
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
-- 
2.43.0


From c6281c5eb8455ea7239968c903e51aafe4f6d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 11/65] fix: capture which is not set is not equal to any text

---
 include/ctre/return_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index e37e400..bf89dc0 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -207,13 +207,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
-- 
2.43.0


From c908c4852f123e0b0fa39ac84243673f50a10549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 12/65] fix: case-insensitive range contains other case of
 every letter in it

---
 include/ctre/atoms_characters.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index ed9e66e..a9ea26b 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -66,18 +66,11 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const auto other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if (other_case >= A && other_case <= B) {
+				return true;
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
-- 
2.43.0


From 25a3d9874557690283a3ad46424fcde3835efb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 13/65] fix: multiline line begin does not step a forward
 iterator back

---
 include/ctre/evaluation.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index fd78a7b..f4d747f 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -43,6 +43,17 @@ template <size_t Limit> constexpr CTRE_FORCE_INLINE bool less_than([[maybe_unuse
 constexpr bool is_bidirectional(const std::bidirectional_iterator_tag &) { return true; }
 constexpr bool is_bidirectional(...) { return false; }
 
+// there must be something between begin and current
+template <typename BeginIterator, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator previous_position([[maybe_unused]] const BeginIterator begin, Iterator current) noexcept {
+	if constexpr (is_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{})) {
+		return std::prev(current);
+	} else {
+		Iterator result = begin;
+		for (Iterator next = result; ++next != current; ) result = next;
+		return result;
+	}
+}
+
 // sink for making the errors shorter
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator, const EndIterator, flags, R, ...) noexcept {
@@ -190,7 +201,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	if (multiline_mode(f)) {
 		if (begin == current) {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
-		} else if (*std::prev(current) == '\n') {
+		} else if (*previous_position(begin, current) == '\n') {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 		} else {
 			return not_matched;
-- 
2.43.0


From c6aa1215c15397fc6f0f59a0d20236a91d8b3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 14/65] fix: malformed UTF-8 does not move iterator out of the
 subject or over following code points

---
 include/ctre/utf8.hpp | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 6dfa027..0e696a3 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -60,6 +60,20 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr};
+	
+	// the contant is mapping from first 5 bits of first code unit to length of UTF8 code point -1
+	// xxxxx -> yy (5 bits to 2 bits)
+	// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
+	// (unit >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
+	// & 0b11u  selects only needed two bits
+	static constexpr unsigned trailing_units(char8_t unit) noexcept {
+		return (0x3A55000000000000ull >> ((unit >> 2) & 0b111110u)) & 0b11u;
+	}
+	
+	static constexpr bool is_trailing_unit(char8_t unit) noexcept {
+		return (unit & 0b11000000u) == 0b10'000000u;
+	}
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -114,26 +128,28 @@ struct utf8_iterator {
 	}
 	
 	constexpr utf8_iterator & operator++() noexcept {
-		// the contant is mapping from first 5 bits of first code unit to length of UTF8 code point -1
-		// xxxxx -> yy (5 bits to 2 bits)
-		// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
-		// (*ptr >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
-		// & 0b11u  selects only needed two bits
-		// +1  because each iteration is at least one code unit forward
+		// each iteration is at least one code unit forward
+		unsigned length = trailing_units(*ptr++);
+		
+		// don't step over the end and don't eat anything what isn't part of (a malformed) code point
+		while (length-- > 0 && ptr != end && is_trailing_unit(*ptr)) ++ptr;
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
 		return *this;
 	}
 	
 	constexpr utf8_iterator & operator--() noexcept {
-		if (ptr > end) {
-			ptr = end-1;
-		} else {
+		const char8_t * const last_unit = --ptr;
+		
+		// find front unit of the code point
+		unsigned length = 0;
+		while (length < 3 && ptr != begin && is_trailing_unit(*ptr)) {
 			--ptr;
+			++length;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
-			--ptr;
+		// last unit is not part of any code point
+		if (trailing_units(*ptr) < length) {
+			ptr = last_unit;
 		}
 		
 		return *this;
@@ -236,7 +252,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
-- 
2.43.0


From bd471a3e5f15bd2f01b86e7924621f267b6e6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 15/65] fix: overlong, surrogate and out of range UTF-8
 sequences are malformed too

---
 include/ctre/utf8.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 0e696a3..7ea9277 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -225,7 +225,7 @@ struct utf8_iterator {
 
 		// add rest of trailing units
 		if (length == 1) CTRE_LIKELY {
-			return result;
+			return result < 0x80u ? mojibake : result;
 		}
 
 		if ((ptr[2] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
@@ -235,14 +235,18 @@ struct utf8_iterator {
 		result = (result << 6) | (ptr[2] & 0b0011'1111u);
 
 		if (length == 2) CTRE_LIKELY {
-			return result;
+			// overlong or surrogate
+			return result < 0x800u || (result >= 0xD800u && result <= 0xDFFFu) ? mojibake : result;
 		}
 
 		if ((ptr[3] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
 			return mojibake;
 		}
 
-		return (result << 6) | (ptr[3] & 0b0011'1111u);
+		result = (result << 6) | (ptr[3] & 0b0011'1111u);
+		
+		// overlong or out of range
+		return result < 0x10000u || result > 0x10FFFFu ? mojibake : result;
 	}
 };
 
-- 
2.43.0


From c7db4b8a304d15697086818959e172c5d444149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 16/65] fix: decoding of truncated UTF-8 does not create a
 pointer outside of the subject

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 7ea9277..a3f0598 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -204,7 +204,7 @@ struct utf8_iterator {
 		}
 
 		// if part of the utf-8 sequence is past the end
-		if (((ptr + length) >= end)) CTRE_UNLIKELY {
+		if (static_cast<size_t>(end - ptr) <= length) CTRE_UNLIKELY {
 			return mojibake;
 		}
 		
-- 
2.43.0


From 00922b397ad363a772f10aed2c73ee1a459e4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 17/65] fix: lookbehind in UTF-8 subject sees whole code points

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index a3f0598..b8ba7d8 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -18,7 +18,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t; // result of the dereference is a code point
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
-- 
2.43.0


From b2bbb86f78d9c32a685a0c0adf7bb2c6a2ffcec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 18/65] fix: repeats of strings, anchors and nested lookarounds
 inside lookbehind follow its direction

---
 include/ctre/evaluation.hpp | 13 +++++++++++--
 include/ctre/rotate.hpp     | 31 +++++++++++++++++++------------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index f4d747f..3d59fe3 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -546,11 +546,20 @@ constexpr bool is_at_least_bidirectional(std::bidirectional_iterator_tag) {
 	return true;
 }
 
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(Iterator it) noexcept {
+	return std::make_reverse_iterator(it);
+}
+
+// lookahead inside lookbehind
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(std::reverse_iterator<Iterator> it) noexcept {
+	return it.base();
+}
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	if (auto lookbehind_result = evaluate(other_direction(last), other_direction(current), other_direction(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		captures = lookbehind_result.unmatch();
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	} else {
@@ -563,7 +572,7 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_negative<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use negative lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	if (auto lookbehind_result = evaluate(other_direction(last), other_direction(current), other_direction(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return not_matched;
 	} else {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index f232883..d0f0db6 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -52,9 +52,15 @@ template <typename... Content> static auto rotate(select<Content...>) {
 }
 
 
-template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
+template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
 
 template <size_t Index, typename... Content> static auto rotate(capture<Index, Content...>) {
 	return ctre::convert_to_capture<Index>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
@@ -75,11 +81,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// we don't rotate content of lookaheads / lookbehinds, but what is ahead is now behind
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -90,11 +96,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
+// and begin is now end
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
 static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
-- 
2.43.0


From a8c49ade6944d75ab4797a9e8e0e641b1e8c8946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 19/65] fix: case-insensitive back reference

---
 include/ctre/evaluation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 3d59fe3..91455c6 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -465,9 +465,9 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (*current == *range_current || (is_case_insensitive(f) && is_ascii_alpha(*current) && (*current ^ 0x20) == *range_current)) {
 			current++;
 			range_current++;
 		} else {
-- 
2.43.0


From f12da973373bb6f96dc344b4d8d34473302d53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 20/65] fix: repeats, captures, atomic groups and back
 references inside lookbehind (and back references in UTF-8 subjects)

---
 include/ctre/evaluation.hpp  | 94 ++++++++++++++++++++++++++++--------
 include/ctre/return_type.hpp |  9 ++++
 2 files changed, 82 insertions(+), 21 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 91455c6..5e3c971 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -54,6 +54,39 @@ template <typename BeginIterator, typename Iterator> constexpr CTRE_FORCE_INLINE
 	}
 }
 
+// lookbehind is evaluated with reverse iterators, but results always contain original ones
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(Iterator it) noexcept {
+	return std::make_reverse_iterator(it);
+}
+
+// lookahead inside lookbehind
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(std::reverse_iterator<Iterator> it) noexcept {
+	return it.base();
+}
+
+template <typename R> using result_position = decltype(std::declval<const R &>().get_end_position());
+
+template <typename R, typename Iterator> constexpr bool is_other_direction = !std::is_convertible_v<Iterator, result_position<R>>;
+
+template <typename R, typename Iterator> constexpr CTRE_FORCE_INLINE auto to_result_position(Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return other_direction(current);
+	} else {
+		return current;
+	}
+}
+
+template <typename R, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator from_result_position(Iterator current, result_position<R> position) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		auto tmp = other_direction(current);
+		tmp = position;
+		return other_direction(tmp);
+	} else {
+		current = position;
+		return current;
+	}
+}
+
 // sink for making the errors shorter
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator, const EndIterator, flags, R, ...) noexcept {
@@ -91,7 +124,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator current, co
 		return not_matched;
 	}
 	
-	return captures.set_end_mark(current).matched();
+	return captures.set_end_mark(to_result_position<R>(current)).matched();
 }
 
 // matching everything which behave as a one character matcher
@@ -294,7 +327,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			if (!outer_result) return not_matched;
 		
 			captures = outer_result.unmatch();
-			current = outer_result.get_end_position();
+			current = from_result_position<R>(current, outer_result.get_end_position());
 		
 			++i;
 		}
@@ -308,14 +341,14 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			auto outer_result = evaluate(begin, from_result_position<R>(current, inner_result.get_end_position()), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
 		
 			if (outer_result) {
 				return outer_result;
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		
 			++i;
 		}
@@ -345,7 +378,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		}
 	
 		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
@@ -370,7 +403,7 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			//  return inner_result
 			// I tried to add all constructors to R but without any success
 			auto tmp_current = current;
-			tmp_current = inner_result.get_end_position();
+			tmp_current = from_result_position<R>(current, inner_result.get_end_position());
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
 			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
@@ -425,7 +458,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			if (!inner_result) return not_matched;
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		
 			++i;
 		}
@@ -441,22 +474,39 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 }
 
+// in lookbehind a capture starts with its end
+template <size_t Id, typename R, typename Iterator> constexpr CTRE_FORCE_INLINE R start_capture(R captures, Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return captures.template start_capture_from_end<Id>(to_result_position<R>(current));
+	} else {
+		return captures.template start_capture<Id>(current);
+	}
+}
+
+template <size_t Id, typename R, typename Iterator> constexpr CTRE_FORCE_INLINE R end_capture(R captures, Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return captures.template end_capture_at_begin<Id>(to_result_position<R>(current));
+	} else {
+		return captures.template end_capture<Id>(current);
+	}
+}
+
 // capture (numeric ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<capture<Id, Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template start_capture<Id>(current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
+	return evaluate(begin, current, last, f, start_capture<Id>(captures, current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
 }
 
 // capture end mark (numeric and string ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template end_capture<Id>(current), ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, end_capture<Id>(captures, current), ctll::list<Tail...>());
 }
 
 // capture (string ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename Name, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<capture_with_name<Id, Name, Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template start_capture<Id>(current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
+	return evaluate(begin, current, last, f, start_capture<Id>(captures, current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
 }
 
 // backreference support (match agains content of iterators)
@@ -477,12 +527,23 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+template <typename R, typename Iterator, typename EndIterator, typename Capture> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_capture(Iterator current, const EndIterator last, const Capture & ref, const flags & f) noexcept {
+	const auto ref_begin = from_result_position<R>(current, ref.begin());
+	const auto ref_end = from_result_position<R>(current, ref.end());
+	
+	if constexpr (is_other_direction<R, Iterator>) {
+		return match_against_range(current, last, ref_end, ref_begin, f);
+	} else {
+		return match_against_range(current, last, ref_begin, ref_end, f);
+	}
+}
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		if (auto result = match_against_capture<R>(current, last, ref, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
@@ -494,7 +555,7 @@ template <typename R, size_t Id, typename BeginIterator, typename Iterator, type
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		if (auto result = match_against_capture<R>(current, last, ref, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
@@ -546,15 +607,6 @@ constexpr bool is_at_least_bidirectional(std::bidirectional_iterator_tag) {
 	return true;
 }
 
-template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(Iterator it) noexcept {
-	return std::make_reverse_iterator(it);
-}
-
-// lookahead inside lookbehind
-template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(std::reverse_iterator<Iterator> it) noexcept {
-	return it.base();
-}
-
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index bf89dc0..440fddb 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -496,6 +496,15 @@ public:
 		_captures.template select<Id>().set_end(pos).matched();
 		return *this;
 	}
+	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture_from_end(Iterator pos) noexcept {
+		_captures.template select<Id>().set_end(pos);
+		return *this;
+	}
+	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture_at_begin(Iterator pos) noexcept {
+		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().matched();
+		return *this;
+	}
 	constexpr auto begin() const noexcept {
 		return _captures.template select<0>().begin();
 	}
-- 
2.43.0


From 474791cd84e7ec754501de436cf55566a95287cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 21/65] fix: sort tables of code points which are searched by
 bisection (Dash, Extender, Pd, Soft_Dotted)

---
 include/unicode-db/unicode-db.hpp | 34 +++++++++++++++----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 385576b..074c6bf 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -1975,10 +1975,10 @@ namespace detail::tables {
          0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6},
         {0x0000000000000000, 0x0800000008000002, 0x0020000000200000, 0x0000800000008000,
          0x0000020000000200, 0x0000000000000008, 0x0003000000000000}};
-    static constexpr flat_array<26> cat_pd{{0x1400, 0x1806,  0x058A, 0xFF0D, 0x2010, 0x2011, 0x2012,
-                                            0x2013, 0x2014,  0x2015, 0x2E17, 0x2E1A, 0x301C, 0x30A0,
-                                            0x002D, 0x10EAD, 0x3030, 0xFE31, 0xFE32, 0x2E3A, 0x2E3B,
-                                            0x05BE, 0x2E40,  0xFE58, 0x2E5D, 0xFE63}};
+    static constexpr flat_array<26> cat_pd{{0x002D, 0x058A,  0x05BE, 0x1400, 0x1806, 0x2010, 0x2011,
+                                            0x2012, 0x2013,  0x2014, 0x2015, 0x2E17, 0x2E1A, 0x2E3A,
+                                            0x2E3B, 0x2E40, 0x2E5D, 0x301C, 0x3030, 0x30A0, 0xFE31,
+                                            0xFE32, 0xFE58,  0xFE63, 0xFF0D, 0x10EAD}};
     static constexpr bool_trie<32, 984, 5, 3, 9, 255, 1, 0, 414, 18, 16, 8> cat_nd{
         {0x03ff000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -5738,9 +5738,9 @@ namespace detail::tables {
         {0x0000000000000000, 0x0000001fc0000000, 0xf800000000000000, 0x0000000000000001,
          0xffffffffffffffff, 0x000000003fffffff}};
     static constexpr flat_array<30> prop_dash_data{
-        {0x1400, 0x1806, 0x058A, 0x208B, 0xFF0D, 0x2010, 0x2011, 0x2012,  0x2013, 0x2014,
-         0x2015, 0x2212, 0x2E17, 0x2E1A, 0x301C, 0x30A0, 0x002D, 0x10EAD, 0x3030, 0xFE31,
-         0xFE32, 0x2E3A, 0x2E3B, 0x05BE, 0x2E40, 0x2053, 0xFE58, 0x2E5D,  0xFE63, 0x207B}};
+        {0x002D, 0x058A, 0x05BE, 0x1400, 0x1806, 0x2010, 0x2011, 0x2012,  0x2013, 0x2014,
+         0x2015, 0x2053, 0x207B, 0x208B, 0x2212, 0x2E17, 0x2E1A, 0x2E3A, 0x2E3B, 0x2E40,
+         0x2E5D, 0x301C, 0x3030, 0x30A0, 0xFE31, 0xFE32, 0xFE58, 0xFE63,  0xFF0D, 0x10EAD}};
     static constexpr flat_array<15> prop_dep_data{{0xE0001, 0x17A3, 0x17A4, 0x0149, 0x206A, 0x206B,
                                                    0x206C, 0x206D, 0x206E, 0x206F, 0x2329, 0x232A,
                                                    0x0673, 0x0F77, 0x0F79}};
@@ -5918,11 +5918,11 @@ namespace detail::tables {
              0x1ff01800e0e7103f, 0x00010fff00000000, 0xf7fffffffffff000, 0xffffffffffffffbf,
              0x1f1f000000000000, 0x07ff1fffffff007f, 0x007f00ff03ff003f}};
     static constexpr flat_array<50> prop_ext_data{
-        {0x10781, 0x10782, 0x3005,  0x180A,  0xA60C, 0xA015, 0x11A98, 0x309D,  0x309E,  0x1AA7,
-         0x3031,  0x3032,  0x3033,  0x3034,  0x3035, 0x1C36, 0x00B7,  0x1E13C, 0x1E13D, 0x0640,
-         0x16B42, 0x1843,  0x16B43, 0x1E944, 0x0E46, 0x0EC6, 0x115C6, 0x115C7, 0x115C8, 0x1E945,
-         0x1E946, 0xA9CF,  0x02D0,  0x02D1,  0x0B55, 0xAADD, 0x1135D, 0x16FE0, 0x16FE1, 0x16FE3,
-         0xA9E6,  0xAA70,  0xFF70,  0xAAF3,  0xAAF4, 0x07FA, 0x1C7B,  0x30FC,  0x30FD,  0x30FE}};
+        {0x00B7, 0x02D0, 0x02D1,  0x0640,  0x07FA, 0x0B55, 0x0E46, 0x0EC6,  0x180A,  0x1843,
+         0x1AA7,  0x1C36,  0x1C7B,  0x3005,  0x3031, 0x3032, 0x3033,  0x3034, 0x3035, 0x309D,
+         0x309E, 0x30FC,  0x30FD, 0x30FE, 0xA015, 0xA60C, 0xA9CF, 0xA9E6, 0xAA70, 0xAADD,
+         0xAAF3, 0xAAF4,  0xFF70,  0x10781,  0x10782, 0x1135D, 0x115C6, 0x115C7, 0x115C8, 0x11A98,
+         0x16B42,  0x16B43,  0x16FE0,  0x16FE1,  0x16FE3, 0x1E13C, 0x1E13D,  0x1E944,  0x1E945,  0x1E946}};
     static constexpr bool_trie<32, 75, 96, 821, 22, 1, 15, 240, 44, 64, 20, 22>
         prop_extended_pictographic_data{
             {0x0000000000000000, 0x0000000000000000, 0x0000420000000000, 0x0000000000000000,
@@ -6487,11 +6487,11 @@ namespace detail::tables {
         0x00000000, 0x002E8001, 0x002E9A00, 0x002E9B01, 0x002EF400, 0x002F0001, 0x002FD600};
     static constexpr range_array prop_ri_data = {0x00000000, 0x01F1E601, 0x01F20000};
     static constexpr flat_array<47> prop_sd_data{
-        {0x1D48A, 0x1D48B, 0x1D58E, 0x1D58F, 0x1D692, 0x1D693, 0x1D96,  0x1DF1A, 0x029D, 0x1D422,
-         0x1D423, 0x1DA4,  0x1D526, 0x1D527, 0x1DA8,  0x1D62A, 0x1D62B, 0x1E2D,  0x012F, 0x02B2,
-         0x1D4BE, 0x1D4BF, 0x1D5C2, 0x1D5C3, 0x2148,  0x2149,  0x0249,  0x1ECB,  0x0456, 0x1D456,
-         0x0458,  0x1D457, 0x1D55A, 0x1D55B, 0x1D65E, 0x1D65F, 0x1D62,  0x0268,  0x0069, 0x006A,
-         0x2071,  0x1D4F2, 0x03F3,  0x1D4F3, 0x1D5F6, 0x1D5F7, 0x2C7C}};
+        {0x0069, 0x006A, 0x012F, 0x0249, 0x0268, 0x029D, 0x02B2,  0x03F3, 0x0456, 0x0458,
+         0x1D62, 0x1D96,  0x1DA4, 0x1DA8, 0x1E2D,  0x1ECB, 0x2071, 0x2148,  0x2149, 0x2C7C,
+         0x1D422, 0x1D423, 0x1D456, 0x1D457, 0x1D48A,  0x1D48B,  0x1D4BE,  0x1D4BF,  0x1D4F2, 0x1D4F3,
+         0x1D526,  0x1D527, 0x1D55A, 0x1D55B, 0x1D58E, 0x1D58F, 0x1D5C2,  0x1D5C3,  0x1D5F6, 0x1D5F7,
+         0x1D62A,  0x1D62B, 0x1D65E,  0x1D65F, 0x1D692, 0x1D693, 0x1DF1A}};
     static constexpr bool_trie<32, 991, 1, 0, 30, 255, 1, 0, 322, 41, 21, 25> prop_sterm_data{
         {0x8000400200000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
-- 
2.43.0


From c09d0e43701dc8a81fb9cbeda072078543630f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 22/65] fix: general category Other (C) contains unassigned
 code points (Cn)

---
 include/unicode-db/unicode-db.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 074c6bf..b5c7d90 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -3195,7 +3195,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
-- 
2.43.0


From db87157fd246f6d2ec01e489f1ebe82731c3ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 23/65] fix: private use and surrogate code points are assigned

---
 include/unicode-db/unicode-db.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index b5c7d90..9daa672 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7438,7 +7438,9 @@ constexpr bool cp_is_valid(char32_t cp) {
     return char32_t(cp) <= 0x10FFFF;
 }
 constexpr bool cp_is_assigned(char32_t cp) {
-    return detail::tables::prop_assigned.lookup(char32_t(cp));
+    return detail::tables::prop_assigned.lookup(char32_t(cp)) ||
+           detail::tables::cat_co.lookup(char32_t(cp)) ||
+           detail::tables::cat_cs.lookup(char32_t(cp));
 }
 
 constexpr bool cp_is_ascii(char32_t cp) {
-- 
2.43.0


From 8d82baf8299c70b5c0691b33e830b7a1be86d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 24/65] fix: property Case_Ignorable was empty

---
 include/unicode-db/unicode-db.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 9daa672..33bfb7b 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7422,8 +7422,20 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    // Word_Break is MidLetter, MidNumLet or Single_Quote
+    constexpr char32_t word_break[] = {0x0027, 0x002E, 0x003A, 0x00B7, 0x0387, 0x055F,
+                                       0x05F4, 0x2018, 0x2019, 0x2024, 0x2027, 0xFE13,
+                                       0xFE52, 0xFE55, 0xFF07, 0xFF0E, 0xFF1A};
+    for(char32_t c : word_break) {
+        if(c == cp)
+            return true;
+    }
+    return detail::tables::cat_mn.lookup(char32_t(cp)) ||
+           detail::tables::cat_me.lookup(char32_t(cp)) ||
+           detail::tables::cat_cf.lookup(char32_t(cp)) ||
+           detail::tables::cat_lm.lookup(char32_t(cp)) ||
+           detail::tables::cat_sk.lookup(char32_t(cp));
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
-- 
2.43.0


From 4f9ba5b8440fa26f2ebed529c4f888587156c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 25/65] fix: unassigned code points have no age

---
 include/ctre/atoms_unicode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ctre/atoms_unicode.hpp b/include/ctre/atoms_unicode.hpp
index 7e6ec8b..8718246 100644
--- a/include/ctre/atoms_unicode.hpp
+++ b/include/ctre/atoms_unicode.hpp
@@ -57,7 +57,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
-- 
2.43.0


From 3ac47999b3508c387e92ec6881ca1a4a4126b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 26/65] fix: truncated, overlong and out of range UTF-8 or lone
 surrogates in UTF-16 are flagged in pattern text

---
 include/ctll/fixed_string.hpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/ctll/fixed_string.hpp b/include/ctll/fixed_string.hpp
index 148f377..282bae0 100644
--- a/include/ctll/fixed_string.hpp
+++ b/include/ctll/fixed_string.hpp
@@ -24,7 +24,7 @@ constexpr length_value_t length_and_value_of_utf8_code_point(uint8_t first_unit)
 	else if ((first_unit & 0b1111'0000) == 0b1110'0000) return {static_cast<uint32_t>(first_unit & 0b0000'1111), 3};
 	else if ((first_unit & 0b1111'1000) == 0b1111'0000) return {static_cast<uint32_t>(first_unit & 0b0000'0111), 4};
 	else if ((first_unit & 0b1111'1100) == 0b1111'1000) return {static_cast<uint32_t>(first_unit & 0b0000'0011), 5};
-	else if ((first_unit & 0b1111'1100) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
+	else if ((first_unit & 0b1111'1110) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
 	else return {0, 0};
 }
 
@@ -36,6 +36,17 @@ constexpr char32_t value_of_trailing_utf8_code_point(uint8_t unit, bool & correc
 	}
 }
 
+// overlong encodings, surrogates and values out of range are ill-formed
+constexpr bool is_utf8_code_point(uint32_t value, uint8_t length) noexcept {
+	switch (length) {
+		case 1: return value < 0x80;
+		case 2: return value >= 0x80;
+		case 3: return value >= 0x800 && (value < 0xD800 || value > 0xDFFF);
+		case 4: return value >= 0x10000 && value <= 0x10FFFF;
+		default: return false;
+	}
+}
+
 constexpr length_value_t length_and_value_of_utf16_code_point(uint16_t first_unit) noexcept {
 	if ((first_unit & 0b1111110000000000) == 0b1101'1000'0000'0000) return {static_cast<uint32_t>(first_unit & 0b0000001111111111), 2};
 	else return {first_unit, 1};
@@ -59,20 +70,26 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 					switch (info.length) {
 						case 6:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 5:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 4:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 3:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 2:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 1:
+							if (!is_utf8_code_point(info.value, info.length)) correct_flag = false;
 							content[out++] = static_cast<char32_t>(info.value);
 							real_size++;
 							break;
@@ -95,20 +112,26 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 				switch (info.length) {
 					case 6:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 5:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 4:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 3:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 2:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 1:
+						if (!is_utf8_code_point(info.value, info.length)) correct_flag = false;
 						content[out++] = static_cast<char32_t>(info.value);
 						real_size++;
 						break;
@@ -130,8 +153,11 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							correct_flag = false;
 							break;
 						}
+					} else {
+						correct_flag = false; // truncated
 					}
 				} else {
+					if ((input[i] & 0b1111'1100'0000'0000) == 0b1101'1100'0000'0000) correct_flag = false; // lone low surrogate
 					content[out++] = info.value;
 				}
 			}
-- 
2.43.0


From 8c9a9552504bbb0711eeea7bbdaa625c5107301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 27/65] fix: single headers contain the fixes of the header
 tree

---
 single-header/ctre-unicode.hpp | 553 +++++++++++++++++++++++++--------
 single-header/ctre.hpp         | 497 ++++++++++++++++++++++-------
 single-header/unicode-db.hpp   |  56 ++--
 3 files changed, 838 insertions(+), 268 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index eea7cc1..102876d 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -325,7 +325,7 @@ constexpr length_value_t length_and_value_of_utf8_code_point(uint8_t first_unit)
 	else if ((first_unit & 0b1111'0000) == 0b1110'0000) return {static_cast<uint32_t>(first_unit & 0b0000'1111), 3};
 	else if ((first_unit & 0b1111'1000) == 0b1111'0000) return {static_cast<uint32_t>(first_unit & 0b0000'0111), 4};
 	else if ((first_unit & 0b1111'1100) == 0b1111'1000) return {static_cast<uint32_t>(first_unit & 0b0000'0011), 5};
-	else if ((first_unit & 0b1111'1100) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
+	else if ((first_unit & 0b1111'1110) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
 	else return {0, 0};
 }
 
@@ -337,6 +337,17 @@ constexpr char32_t value_of_trailing_utf8_code_point(uint8_t unit, bool & correc
 	}
 }
 
+// overlong encodings, surrogates and values out of range are ill-formed
+constexpr bool is_utf8_code_point(uint32_t value, uint8_t length) noexcept {
+	switch (length) {
+		case 1: return value < 0x80;
+		case 2: return value >= 0x80;
+		case 3: return value >= 0x800 && (value < 0xD800 || value > 0xDFFF);
+		case 4: return value >= 0x10000 && value <= 0x10FFFF;
+		default: return false;
+	}
+}
+
 constexpr length_value_t length_and_value_of_utf16_code_point(uint16_t first_unit) noexcept {
 	if ((first_unit & 0b1111110000000000) == 0b1101'1000'0000'0000) return {static_cast<uint32_t>(first_unit & 0b0000001111111111), 2};
 	else return {first_unit, 1};
@@ -360,20 +371,26 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 					switch (info.length) {
 						case 6:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 5:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 4:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 3:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 2:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 1:
+							if (!is_utf8_code_point(info.value, info.length)) correct_flag = false;
 							content[out++] = static_cast<char32_t>(info.value);
 							real_size++;
 							break;
@@ -396,20 +413,26 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 				switch (info.length) {
 					case 6:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 5:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 4:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 3:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 2:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 1:
+						if (!is_utf8_code_point(info.value, info.length)) correct_flag = false;
 						content[out++] = static_cast<char32_t>(info.value);
 						real_size++;
 						break;
@@ -431,8 +454,11 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							correct_flag = false;
 							break;
 						}
+					} else {
+						correct_flag = false; // truncated
 					}
 				} else {
+					if ((input[i] & 0b1111'1100'0000'0000) == 0b1101'1100'0000'0000) correct_flag = false; // lone low surrogate
 					content[out++] = info.value;
 				}
 			}
@@ -1541,6 +1567,11 @@ constexpr CTRE_FORCE_INLINE auto not_empty_match(flags f) {
 	return f;
 }
 
+constexpr CTRE_FORCE_INLINE auto can_be_empty_match(flags f) {
+	f.block_empty_match = false;
+	return f;
+}
+
 constexpr CTRE_FORCE_INLINE auto consumed_something(flags f, bool condition = true) {
 	if (condition) f.block_empty_match = false;
 	return f;
@@ -1624,18 +1655,11 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const auto other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if (other_case >= A && other_case <= B) {
+				return true;
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
@@ -1928,7 +1952,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
@@ -2073,9 +2098,15 @@ template <typename... Content> static auto rotate(select<Content...>) {
   return select<decltype(rotate(Content{}))...>{};
 }
 
-template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
+template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
 
 template <size_t Index, typename... Content> static auto rotate(capture<Index, Content...>) {
 	return ctre::convert_to_capture<Index>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
@@ -2096,11 +2127,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// we don't rotate content of lookaheads / lookbehinds, but what is ahead is now behind
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -2111,11 +2142,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
+// and begin is now end
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
 static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
@@ -2270,7 +2302,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
@@ -2332,7 +2364,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
@@ -2459,21 +2491,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
@@ -3031,6 +3063,12 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	// check if all options starts with anchor or if they are empty, there is an anchor behind them
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
@@ -3058,19 +3096,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
@@ -3111,7 +3149,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t; // result of the dereference is a code point
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
@@ -3153,6 +3191,20 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr};
+	
+	// the contant is mapping from first 5 bits of first code unit to length of UTF8 code point -1
+	// xxxxx -> yy (5 bits to 2 bits)
+	// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
+	// (unit >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
+	// & 0b11u  selects only needed two bits
+	static constexpr unsigned trailing_units(char8_t unit) noexcept {
+		return (0x3A55000000000000ull >> ((unit >> 2) & 0b111110u)) & 0b11u;
+	}
+	
+	static constexpr bool is_trailing_unit(char8_t unit) noexcept {
+		return (unit & 0b11000000u) == 0b10'000000u;
+	}
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -3207,26 +3259,28 @@ struct utf8_iterator {
 	}
 	
 	constexpr utf8_iterator & operator++() noexcept {
-		// the contant is mapping from first 5 bits of first code unit to length of UTF8 code point -1
-		// xxxxx -> yy (5 bits to 2 bits)
-		// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
-		// (*ptr >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
-		// & 0b11u  selects only needed two bits
-		// +1  because each iteration is at least one code unit forward
+		// each iteration is at least one code unit forward
+		unsigned length = trailing_units(*ptr++);
+		
+		// don't step over the end and don't eat anything what isn't part of (a malformed) code point
+		while (length-- > 0 && ptr != end && is_trailing_unit(*ptr)) ++ptr;
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
 		return *this;
 	}
 	
 	constexpr utf8_iterator & operator--() noexcept {
-		if (ptr > end) {
-			ptr = end-1;
-		} else {
+		const char8_t * const last_unit = --ptr;
+		
+		// find front unit of the code point
+		unsigned length = 0;
+		while (length < 3 && ptr != begin && is_trailing_unit(*ptr)) {
 			--ptr;
+			++length;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
-			--ptr;
+		// last unit is not part of any code point
+		if (trailing_units(*ptr) < length) {
+			ptr = last_unit;
 		}
 		
 		return *this;
@@ -3281,7 +3335,7 @@ struct utf8_iterator {
 		}
 
 		// if part of the utf-8 sequence is past the end
-		if (((ptr + length) >= end)) CTRE_UNLIKELY {
+		if (static_cast<size_t>(end - ptr) <= length) CTRE_UNLIKELY {
 			return mojibake;
 		}
 		
@@ -3302,7 +3356,7 @@ struct utf8_iterator {
 
 		// add rest of trailing units
 		if (length == 1) CTRE_LIKELY {
-			return result;
+			return result < 0x80u ? mojibake : result;
 		}
 
 		if ((ptr[2] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
@@ -3312,14 +3366,18 @@ struct utf8_iterator {
 		result = (result << 6) | (ptr[2] & 0b0011'1111u);
 
 		if (length == 2) CTRE_LIKELY {
-			return result;
+			// overlong or surrogate
+			return result < 0x800u || (result >= 0xD800u && result <= 0xDFFFu) ? mojibake : result;
 		}
 
 		if ((ptr[3] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
 			return mojibake;
 		}
 
-		return (result << 6) | (ptr[3] & 0b0011'1111u);
+		result = (result << 6) | (ptr[3] & 0b0011'1111u);
+		
+		// overlong or out of range
+		return result < 0x10000u || result > 0x10FFFFu ? mojibake : result;
 	}
 };
 
@@ -3329,7 +3387,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
@@ -3547,13 +3605,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
@@ -3836,6 +3894,15 @@ public:
 		_captures.template select<Id>().set_end(pos).matched();
 		return *this;
 	}
+	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture_from_end(Iterator pos) noexcept {
+		_captures.template select<Id>().set_end(pos);
+		return *this;
+	}
+	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture_at_begin(Iterator pos) noexcept {
+		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().matched();
+		return *this;
+	}
 	constexpr auto begin() const noexcept {
 		return _captures.template select<0>().begin();
 	}
@@ -4005,6 +4072,18 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 	return find_captures(ctll::list<Content..., Tail...>(), output);
 }
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_positive<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_negative<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), ctll::list<Output..., captured_content<Id>>());
 }
@@ -4023,33 +4102,55 @@ CTRE_EXPORT template <size_t Id, typename Name, typename... Content, typename...
 namespace ctre {
 	
 struct can_be_anything {};
-	
+
+// nothing more needs to be matched
+struct can_be_nothing {};
+
+// only a line end in the multiline mode
+struct can_be_line_end {};
+
 
 template <typename... Content> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<accept, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<accept, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_cycle_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_cycle_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Tail...>) noexcept {
+constexpr auto first(ctll::list<Content...>, ctll::list<end_lookahead_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
+}
+
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
+}
+
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
 	return l;
 }
 
+// mode can change meaning of everything after it
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -4061,16 +4162,31 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 	return first(l, ctll::list<Tail...>{});
 }
 
+// assert which doesn't consume anything, result of it depends on the position, so if there is nothing to be matched after it it can be anything
+template <typename... Content, typename... Next> 
+constexpr auto first_after_assert(ctll::list<Content...>, ctll::list<Next...>) noexcept {
+	if constexpr ((std::is_same_v<Next, can_be_nothing> || ... || false)) {
+		return ctll::list<can_be_anything>{};
+	} else {
+		return ctll::list<Content..., Next...>{};
+	}
+}
+
 // boundary
 template <typename... Content, typename CharLike, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
+}
+
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 template <typename... Content, typename... Tail> 
@@ -4079,21 +4195,19 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
 	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 // sequence
@@ -4380,17 +4494,28 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// double negation (content of the negative set inside is only approximated)
+template <typename... Content, typename CB> 
+constexpr int64_t negative_helper(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> 
+constexpr int64_t negative_helper(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
 	start = negative_helper(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
-template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+template <typename Head, typename... Rest, typename CB> constexpr void negative_set_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	start = negative_helper(Head{}, cb, start);
-	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
+	negative_set_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
-template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+template <typename CB> constexpr void negative_set_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	if (start < (std::numeric_limits<int64_t>::max)()) {
 		cb(start, (std::numeric_limits<int64_t>::max)());
 	}
@@ -4398,7 +4523,7 @@ template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB &
 
 // simple fixed set
 // TODO: this needs some optimizations
-template <size_t Capacity> class point_set {
+template <size_t Capacity, bool AnyMode = false> class point_set {
 	struct point {
 		int64_t low{};
 		int64_t high{};
@@ -4472,7 +4597,17 @@ public:
 		insert_point(low, high);
 		//insert_point(high, low);
 	}
+	constexpr bool check_case_insensitive(int64_t low, int64_t high, int64_t first, int64_t last, int64_t shift) {
+		// only part which is between first and last has other case
+		if (low < first) low = first;
+		if (high > last) high = last;
+		return low <= high && check_exactly(low + shift, high + shift);
+	}
 	constexpr bool check(int64_t low, int64_t high) {
+		if (check_exactly(low, high)) return true;
+		return AnyMode && (check_case_insensitive(low, high, 'a', 'z', 'A' - 'a') || check_case_insensitive(low, high, 'A', 'Z', 'a' - 'A'));
+	}
+	constexpr bool check_exactly(int64_t low, int64_t high) {
 		for (const auto & r: *this) {
 			if (r.low <= low && low <= r.high) {
 				return true;
@@ -4497,6 +4632,12 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	constexpr bool check(can_be_nothing) {
+		return false;
+	}
+	constexpr bool check(can_be_line_end) {
+		return AnyMode && check('\n', '\n');
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
@@ -4508,11 +4649,14 @@ public:
 	}
 	template <typename... Content> constexpr bool check(ctre::negative_set<Content...> nset) {
 		bool collision = false;
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			collision |= this->check(low, high);
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
@@ -4531,13 +4675,17 @@ public:
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
 	}
+	constexpr void populate(can_be_nothing) { }
+	constexpr void populate(can_be_line_end) {
+		if (AnyMode) insert('\n', '\n');
+	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
 		points[0].high = (std::numeric_limits<int64_t>::max)();
 		used = 1;
 	}
 	template <typename... Content> constexpr void populate(ctre::negative_set<Content...> nset) {
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			this->insert(low, high);
 		});
 	}
@@ -4549,10 +4697,11 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
+// (AnyMode: take case-insensitive and multiline mode into account)
+template <bool AnyMode = false, typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set;
+	point_set<capacity, AnyMode> set;
 	set.populate(rhs);
 	
 	return set.check(lhs);
@@ -4596,6 +4745,50 @@ template <size_t Limit> constexpr CTRE_FORCE_INLINE bool less_than([[maybe_unuse
 constexpr bool is_bidirectional(const std::bidirectional_iterator_tag &) { return true; }
 constexpr bool is_bidirectional(...) { return false; }
 
+// there must be something between begin and current
+template <typename BeginIterator, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator previous_position([[maybe_unused]] const BeginIterator begin, Iterator current) noexcept {
+	if constexpr (is_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{})) {
+		return std::prev(current);
+	} else {
+		Iterator result = begin;
+		for (Iterator next = result; ++next != current; ) result = next;
+		return result;
+	}
+}
+
+// lookbehind is evaluated with reverse iterators, but results always contain original ones
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(Iterator it) noexcept {
+	return std::make_reverse_iterator(it);
+}
+
+// lookahead inside lookbehind
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(std::reverse_iterator<Iterator> it) noexcept {
+	return it.base();
+}
+
+template <typename R> using result_position = decltype(std::declval<const R &>().get_end_position());
+
+template <typename R, typename Iterator> constexpr bool is_other_direction = !std::is_convertible_v<Iterator, result_position<R>>;
+
+template <typename R, typename Iterator> constexpr CTRE_FORCE_INLINE auto to_result_position(Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return other_direction(current);
+	} else {
+		return current;
+	}
+}
+
+template <typename R, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator from_result_position(Iterator current, result_position<R> position) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		auto tmp = other_direction(current);
+		tmp = position;
+		return other_direction(tmp);
+	} else {
+		current = position;
+		return current;
+	}
+}
+
 // sink for making the errors shorter
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator, const EndIterator, flags, R, ...) noexcept {
@@ -4633,7 +4826,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator current, co
 		return not_matched;
 	}
 	
-	return captures.set_end_mark(current).matched();
+	return captures.set_end_mark(to_result_position<R>(current)).matched();
 }
 
 // matching everything which behave as a one character matcher
@@ -4743,7 +4936,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	if (multiline_mode(f)) {
 		if (begin == current) {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
-		} else if (*std::prev(current) == '\n') {
+		} else if (*previous_position(begin, current) == '\n') {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 		} else {
 			return not_matched;
@@ -4831,12 +5024,12 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		size_t i{0};
 	
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto outer_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
 			captures = outer_result.unmatch();
-			current = outer_result.get_end_position();
+			current = from_result_position<R>(current, outer_result.get_end_position());
 		
 			++i;
 		}
@@ -4850,20 +5043,20 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			auto outer_result = evaluate(begin, from_result_position<R>(current, inner_result.get_end_position()), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
 		
 			if (outer_result) {
 				return outer_result;
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		
 			++i;
 		}
 	
-		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		// rest of regex was already tried after the last cycle
+		return not_matched;
 	}
 }
 
@@ -4878,7 +5071,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
 			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// (mandatory cycles can be empty)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? can_be_empty_match(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -4886,7 +5080,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		}
 	
 		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
@@ -4911,23 +5105,23 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			//  return inner_result
 			// I tried to add all constructors to R but without any success
 			auto tmp_current = current;
-			tmp_current = inner_result.get_end_position();
+			tmp_current = from_result_position<R>(current, inner_result.get_end_position());
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -4940,51 +5134,79 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+	else if constexpr (!collides<true>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
+#ifndef CTRE_DISABLE_GREEDY_OPT
+		if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			// it's ok only without case-insensitive and multiline mode
+			if (!is_case_insensitive(f) && !multiline_mode(f)) {
+				return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+			}
+		}
+	
+#endif
+		const Iterator backup_current = current;
+	
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		
 			++i;
 		}
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
 }
 
+// in lookbehind a capture starts with its end
+template <size_t Id, typename R, typename Iterator> constexpr CTRE_FORCE_INLINE R start_capture(R captures, Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return captures.template start_capture_from_end<Id>(to_result_position<R>(current));
+	} else {
+		return captures.template start_capture<Id>(current);
+	}
+}
+
+template <size_t Id, typename R, typename Iterator> constexpr CTRE_FORCE_INLINE R end_capture(R captures, Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return captures.template end_capture_at_begin<Id>(to_result_position<R>(current));
+	} else {
+		return captures.template end_capture<Id>(current);
+	}
+}
+
 // capture (numeric ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<capture<Id, Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template start_capture<Id>(current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
+	return evaluate(begin, current, last, f, start_capture<Id>(captures, current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
 }
 
 // capture end mark (numeric and string ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template end_capture<Id>(current), ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, end_capture<Id>(captures, current), ctll::list<Tail...>());
 }
 
 // capture (string ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename Name, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<capture_with_name<Id, Name, Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template start_capture<Id>(current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
+	return evaluate(begin, current, last, f, start_capture<Id>(captures, current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
 }
 
 // backreference support (match agains content of iterators)
@@ -4993,9 +5215,9 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (*current == *range_current || (is_case_insensitive(f) && is_ascii_alpha(*current) && (*current ^ 0x20) == *range_current)) {
 			current++;
 			range_current++;
 		} else {
@@ -5005,12 +5227,23 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+template <typename R, typename Iterator, typename EndIterator, typename Capture> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_capture(Iterator current, const EndIterator last, const Capture & ref, const flags & f) noexcept {
+	const auto ref_begin = from_result_position<R>(current, ref.begin());
+	const auto ref_end = from_result_position<R>(current, ref.end());
+	
+	if constexpr (is_other_direction<R, Iterator>) {
+		return match_against_range(current, last, ref_end, ref_begin, f);
+	} else {
+		return match_against_range(current, last, ref_begin, ref_end, f);
+	}
+}
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		if (auto result = match_against_capture<R>(current, last, ref, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
@@ -5022,7 +5255,7 @@ template <typename R, size_t Id, typename BeginIterator, typename Iterator, type
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		if (auto result = match_against_capture<R>(current, last, ref, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
@@ -5078,7 +5311,7 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	if (auto lookbehind_result = evaluate(other_direction(last), other_direction(current), other_direction(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		captures = lookbehind_result.unmatch();
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	} else {
@@ -5091,7 +5324,7 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_negative<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use negative lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	if (auto lookbehind_result = evaluate(other_direction(last), other_direction(current), other_direction(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return not_matched;
 	} else {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
@@ -5171,7 +5404,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 		
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		auto next = current;
+		
+		// don't find same empty match again
+		if (current_match.begin() == current_match.end()) ++next;
+		
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, next, end);
 		
 		if (current_match) {
 			current = current_match.template get<0>().end();
@@ -5235,11 +5473,27 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		current = tmp;
 	}
 	
+	// an empty match doesn't separate anything, look for the first non-empty one
+	constexpr CTRE_FORCE_INLINE void skip_empty_matches() {
+		auto next = current;
+		while (current_match && current_match.begin() == current_match.end()) {
+			next = current_match.end();
+			current_match = value_type{};
+			if (next == end) {
+				current_match.set_end_mark(next);
+			} else {
+				current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, ++next, end);
+			}
+		}
+	}
+	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
 		current_match.set_start_mark(current);
 		current_match.matched();
+		// the end is there set by search_method (but it didn't move from the start if the pattern is anchored)
 		current = current_match.template get<0>().end();
+		while (current != end) ++current;
+		current_match.set_end_mark(current);
 		last_match = true;
 	}
 
@@ -5248,6 +5502,8 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(regex_split_iterator &&) noexcept = default;
 
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(BeginIterator begin, EndIterator last) noexcept: orig_begin{begin}, current{begin}, end{last}, current_match{RE::template exec_with_result_iterator<ResultIterator>(current, last)} {
+		skip_empty_matches();
+		
 		if (current_match) {
 			modify_match();
 		} else {
@@ -5268,6 +5524,7 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		}
 	
 		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		skip_empty_matches();
 	
 		if (current_match) {
 			modify_match();
@@ -5573,6 +5830,20 @@ struct starts_with_method {
 	}
 };
 
+// token must not be empty (it would be there forever)
+struct token_method {
+	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin orig_begin, IteratorBegin begin, IteratorEnd end, RE) noexcept {
+		auto out = starts_with_method::exec<Modifier, ResultIterator>(orig_begin, begin, end, RE{});
+		
+		if (out && out.begin() == out.end()) out.unmatch();
+		return out;
+	}
+
+	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
+		return exec<Modifier, ResultIterator>(begin, begin, end, RE{});
+	}
+};
+
 // wrapper which calls search on input
 struct range_method {
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
@@ -5586,7 +5857,7 @@ struct range_method {
 struct tokenize_method {
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
 		using result_iterator = std::conditional_t<std::is_same_v<ResultIterator, void>, IteratorBegin, ResultIterator>;
-		using wrapped_regex = regular_expression<RE, starts_with_method, Modifier>;
+		using wrapped_regex = regular_expression<RE, token_method, Modifier>;
 
 		return regex_range<IteratorBegin, IteratorEnd, wrapped_regex, result_iterator>(begin, end);
 	}
@@ -7971,10 +8242,10 @@ namespace detail::tables {
          0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6},
         {0x0000000000000000, 0x0800000008000002, 0x0020000000200000, 0x0000800000008000,
          0x0000020000000200, 0x0000000000000008, 0x0003000000000000}};
-    static constexpr flat_array<26> cat_pd{{0x1400, 0x1806,  0x058A, 0xFF0D, 0x2010, 0x2011, 0x2012,
-                                            0x2013, 0x2014,  0x2015, 0x2E17, 0x2E1A, 0x301C, 0x30A0,
-                                            0x002D, 0x10EAD, 0x3030, 0xFE31, 0xFE32, 0x2E3A, 0x2E3B,
-                                            0x05BE, 0x2E40,  0xFE58, 0x2E5D, 0xFE63}};
+    static constexpr flat_array<26> cat_pd{{0x002D, 0x058A,  0x05BE, 0x1400, 0x1806, 0x2010, 0x2011,
+                                            0x2012, 0x2013,  0x2014, 0x2015, 0x2E17, 0x2E1A, 0x2E3A,
+                                            0x2E3B, 0x2E40, 0x2E5D, 0x301C, 0x3030, 0x30A0, 0xFE31,
+                                            0xFE32, 0xFE58,  0xFE63, 0xFF0D, 0x10EAD}};
     static constexpr bool_trie<32, 984, 5, 3, 9, 255, 1, 0, 414, 18, 16, 8> cat_nd{
         {0x03ff000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -9191,7 +9462,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
@@ -11734,9 +12005,9 @@ namespace detail::tables {
         {0x0000000000000000, 0x0000001fc0000000, 0xf800000000000000, 0x0000000000000001,
          0xffffffffffffffff, 0x000000003fffffff}};
     static constexpr flat_array<30> prop_dash_data{
-        {0x1400, 0x1806, 0x058A, 0x208B, 0xFF0D, 0x2010, 0x2011, 0x2012,  0x2013, 0x2014,
-         0x2015, 0x2212, 0x2E17, 0x2E1A, 0x301C, 0x30A0, 0x002D, 0x10EAD, 0x3030, 0xFE31,
-         0xFE32, 0x2E3A, 0x2E3B, 0x05BE, 0x2E40, 0x2053, 0xFE58, 0x2E5D,  0xFE63, 0x207B}};
+        {0x002D, 0x058A, 0x05BE, 0x1400, 0x1806, 0x2010, 0x2011, 0x2012,  0x2013, 0x2014,
+         0x2015, 0x2053, 0x207B, 0x208B, 0x2212, 0x2E17, 0x2E1A, 0x2E3A, 0x2E3B, 0x2E40,
+         0x2E5D, 0x301C, 0x3030, 0x30A0, 0xFE31, 0xFE32, 0xFE58, 0xFE63,  0xFF0D, 0x10EAD}};
     static constexpr flat_array<15> prop_dep_data{{0xE0001, 0x17A3, 0x17A4, 0x0149, 0x206A, 0x206B,
                                                    0x206C, 0x206D, 0x206E, 0x206F, 0x2329, 0x232A,
                                                    0x0673, 0x0F77, 0x0F79}};
@@ -11914,11 +12185,11 @@ namespace detail::tables {
              0x1ff01800e0e7103f, 0x00010fff00000000, 0xf7fffffffffff000, 0xffffffffffffffbf,
              0x1f1f000000000000, 0x07ff1fffffff007f, 0x007f00ff03ff003f}};
     static constexpr flat_array<50> prop_ext_data{
-        {0x10781, 0x10782, 0x3005,  0x180A,  0xA60C, 0xA015, 0x11A98, 0x309D,  0x309E,  0x1AA7,
-         0x3031,  0x3032,  0x3033,  0x3034,  0x3035, 0x1C36, 0x00B7,  0x1E13C, 0x1E13D, 0x0640,
-         0x16B42, 0x1843,  0x16B43, 0x1E944, 0x0E46, 0x0EC6, 0x115C6, 0x115C7, 0x115C8, 0x1E945,
-         0x1E946, 0xA9CF,  0x02D0,  0x02D1,  0x0B55, 0xAADD, 0x1135D, 0x16FE0, 0x16FE1, 0x16FE3,
-         0xA9E6,  0xAA70,  0xFF70,  0xAAF3,  0xAAF4, 0x07FA, 0x1C7B,  0x30FC,  0x30FD,  0x30FE}};
+        {0x00B7, 0x02D0, 0x02D1,  0x0640,  0x07FA, 0x0B55, 0x0E46, 0x0EC6,  0x180A,  0x1843,
+         0x1AA7,  0x1C36,  0x1C7B,  0x3005,  0x3031, 0x3032, 0x3033,  0x3034, 0x3035, 0x309D,
+         0x309E, 0x30FC,  0x30FD, 0x30FE, 0xA015, 0xA60C, 0xA9CF, 0xA9E6, 0xAA70, 0xAADD,
+         0xAAF3, 0xAAF4,  0xFF70,  0x10781,  0x10782, 0x1135D, 0x115C6, 0x115C7, 0x115C8, 0x11A98,
+         0x16B42,  0x16B43,  0x16FE0,  0x16FE1,  0x16FE3, 0x1E13C, 0x1E13D,  0x1E944,  0x1E945,  0x1E946}};
     static constexpr bool_trie<32, 75, 96, 821, 22, 1, 15, 240, 44, 64, 20, 22>
         prop_extended_pictographic_data{
             {0x0000000000000000, 0x0000000000000000, 0x0000420000000000, 0x0000000000000000,
@@ -12483,11 +12754,11 @@ namespace detail::tables {
         0x00000000, 0x002E8001, 0x002E9A00, 0x002E9B01, 0x002EF400, 0x002F0001, 0x002FD600};
     static constexpr range_array prop_ri_data = {0x00000000, 0x01F1E601, 0x01F20000};
     static constexpr flat_array<47> prop_sd_data{
-        {0x1D48A, 0x1D48B, 0x1D58E, 0x1D58F, 0x1D692, 0x1D693, 0x1D96,  0x1DF1A, 0x029D, 0x1D422,
-         0x1D423, 0x1DA4,  0x1D526, 0x1D527, 0x1DA8,  0x1D62A, 0x1D62B, 0x1E2D,  0x012F, 0x02B2,
-         0x1D4BE, 0x1D4BF, 0x1D5C2, 0x1D5C3, 0x2148,  0x2149,  0x0249,  0x1ECB,  0x0456, 0x1D456,
-         0x0458,  0x1D457, 0x1D55A, 0x1D55B, 0x1D65E, 0x1D65F, 0x1D62,  0x0268,  0x0069, 0x006A,
-         0x2071,  0x1D4F2, 0x03F3,  0x1D4F3, 0x1D5F6, 0x1D5F7, 0x2C7C}};
+        {0x0069, 0x006A, 0x012F, 0x0249, 0x0268, 0x029D, 0x02B2,  0x03F3, 0x0456, 0x0458,
+         0x1D62, 0x1D96,  0x1DA4, 0x1DA8, 0x1E2D,  0x1ECB, 0x2071, 0x2148,  0x2149, 0x2C7C,
+         0x1D422, 0x1D423, 0x1D456, 0x1D457, 0x1D48A,  0x1D48B,  0x1D4BE,  0x1D4BF,  0x1D4F2, 0x1D4F3,
+         0x1D526,  0x1D527, 0x1D55A, 0x1D55B, 0x1D58E, 0x1D58F, 0x1D5C2,  0x1D5C3,  0x1D5F6, 0x1D5F7,
+         0x1D62A,  0x1D62B, 0x1D65E,  0x1D65F, 0x1D692, 0x1D693, 0x1DF1A}};
     static constexpr bool_trie<32, 991, 1, 0, 30, 255, 1, 0, 322, 41, 21, 25> prop_sterm_data{
         {0x8000400200000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -13418,8 +13689,20 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    // Word_Break is MidLetter, MidNumLet or Single_Quote
+    constexpr char32_t word_break[] = {0x0027, 0x002E, 0x003A, 0x00B7, 0x0387, 0x055F,
+                                       0x05F4, 0x2018, 0x2019, 0x2024, 0x2027, 0xFE13,
+                                       0xFE52, 0xFE55, 0xFF07, 0xFF0E, 0xFF1A};
+    for(char32_t c : word_break) {
+        if(c == cp)
+            return true;
+    }
+    return detail::tables::cat_mn.lookup(char32_t(cp)) ||
+           detail::tables::cat_me.lookup(char32_t(cp)) ||
+           detail::tables::cat_cf.lookup(char32_t(cp)) ||
+           detail::tables::cat_lm.lookup(char32_t(cp)) ||
+           detail::tables::cat_sk.lookup(char32_t(cp));
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
@@ -13434,7 +13717,9 @@ constexpr bool cp_is_valid(char32_t cp) {
     return char32_t(cp) <= 0x10FFFF;
 }
 constexpr bool cp_is_assigned(char32_t cp) {
-    return detail::tables::prop_assigned.lookup(char32_t(cp));
+    return detail::tables::prop_assigned.lookup(char32_t(cp)) ||
+           detail::tables::cat_co.lookup(char32_t(cp)) ||
+           detail::tables::cat_cs.lookup(char32_t(cp));
 }
 
 constexpr bool cp_is_ascii(char32_t cp) {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 99f590b..1daa6b7 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -322,7 +322,7 @@ constexpr length_value_t length_and_value_of_utf8_code_point(uint8_t first_unit)
 	else if ((first_unit & 0b1111'0000) == 0b1110'0000) return {static_cast<uint32_t>(first_unit & 0b0000'1111), 3};
 	else if ((first_unit & 0b1111'1000) == 0b1111'0000) return {static_cast<uint32_t>(first_unit & 0b0000'0111), 4};
 	else if ((first_unit & 0b1111'1100) == 0b1111'1000) return {static_cast<uint32_t>(first_unit & 0b0000'0011), 5};
-	else if ((first_unit & 0b1111'1100) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
+	else if ((first_unit & 0b1111'1110) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
 	else return {0, 0};
 }
 
@@ -334,6 +334,17 @@ constexpr char32_t value_of_trailing_utf8_code_point(uint8_t unit, bool & correc
 	}
 }
 
+// overlong encodings, surrogates and values out of range are ill-formed
+constexpr bool is_utf8_code_point(uint32_t value, uint8_t length) noexcept {
+	switch (length) {
+		case 1: return value < 0x80;
+		case 2: return value >= 0x80;
+		case 3: return value >= 0x800 && (value < 0xD800 || value > 0xDFFF);
+		case 4: return value >= 0x10000 && value <= 0x10FFFF;
+		default: return false;
+	}
+}
+
 constexpr length_value_t length_and_value_of_utf16_code_point(uint16_t first_unit) noexcept {
 	if ((first_unit & 0b1111110000000000) == 0b1101'1000'0000'0000) return {static_cast<uint32_t>(first_unit & 0b0000001111111111), 2};
 	else return {first_unit, 1};
@@ -357,20 +368,26 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 					switch (info.length) {
 						case 6:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 5:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 4:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 3:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 2:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false; // truncated
 							[[fallthrough]];
 						case 1:
+							if (!is_utf8_code_point(info.value, info.length)) correct_flag = false;
 							content[out++] = static_cast<char32_t>(info.value);
 							real_size++;
 							break;
@@ -393,20 +410,26 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 				switch (info.length) {
 					case 6:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 5:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 4:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 3:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 2:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false; // truncated
 						[[fallthrough]];
 					case 1:
+						if (!is_utf8_code_point(info.value, info.length)) correct_flag = false;
 						content[out++] = static_cast<char32_t>(info.value);
 						real_size++;
 						break;
@@ -428,8 +451,11 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							correct_flag = false;
 							break;
 						}
+					} else {
+						correct_flag = false; // truncated
 					}
 				} else {
+					if ((input[i] & 0b1111'1100'0000'0000) == 0b1101'1100'0000'0000) correct_flag = false; // lone low surrogate
 					content[out++] = info.value;
 				}
 			}
@@ -1538,6 +1564,11 @@ constexpr CTRE_FORCE_INLINE auto not_empty_match(flags f) {
 	return f;
 }
 
+constexpr CTRE_FORCE_INLINE auto can_be_empty_match(flags f) {
+	f.block_empty_match = false;
+	return f;
+}
+
 constexpr CTRE_FORCE_INLINE auto consumed_something(flags f, bool condition = true) {
 	if (condition) f.block_empty_match = false;
 	return f;
@@ -1621,18 +1652,11 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const auto other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if (other_case >= A && other_case <= B) {
+				return true;
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
@@ -1925,7 +1949,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
@@ -2070,9 +2095,15 @@ template <typename... Content> static auto rotate(select<Content...>) {
   return select<decltype(rotate(Content{}))...>{};
 }
 
-template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
+template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
 
 template <size_t Index, typename... Content> static auto rotate(capture<Index, Content...>) {
 	return ctre::convert_to_capture<Index>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
@@ -2093,11 +2124,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// we don't rotate content of lookaheads / lookbehinds, but what is ahead is now behind
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -2108,11 +2139,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
+// and begin is now end
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
 static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
@@ -2267,7 +2299,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
@@ -2329,7 +2361,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
@@ -2456,21 +2488,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
@@ -3028,6 +3060,12 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	// check if all options starts with anchor or if they are empty, there is an anchor behind them
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
@@ -3055,19 +3093,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
@@ -3108,7 +3146,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t; // result of the dereference is a code point
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
@@ -3150,6 +3188,20 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr};
+	
+	// the contant is mapping from first 5 bits of first code unit to length of UTF8 code point -1
+	// xxxxx -> yy (5 bits to 2 bits)
+	// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
+	// (unit >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
+	// & 0b11u  selects only needed two bits
+	static constexpr unsigned trailing_units(char8_t unit) noexcept {
+		return (0x3A55000000000000ull >> ((unit >> 2) & 0b111110u)) & 0b11u;
+	}
+	
+	static constexpr bool is_trailing_unit(char8_t unit) noexcept {
+		return (unit & 0b11000000u) == 0b10'000000u;
+	}
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -3204,26 +3256,28 @@ struct utf8_iterator {
 	}
 	
 	constexpr utf8_iterator & operator++() noexcept {
-		// the contant is mapping from first 5 bits of first code unit to length of UTF8 code point -1
-		// xxxxx -> yy (5 bits to 2 bits)
-		// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
-		// (*ptr >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
-		// & 0b11u  selects only needed two bits
-		// +1  because each iteration is at least one code unit forward
+		// each iteration is at least one code unit forward
+		unsigned length = trailing_units(*ptr++);
+		
+		// don't step over the end and don't eat anything what isn't part of (a malformed) code point
+		while (length-- > 0 && ptr != end && is_trailing_unit(*ptr)) ++ptr;
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
 		return *this;
 	}
 	
 	constexpr utf8_iterator & operator--() noexcept {
-		if (ptr > end) {
-			ptr = end-1;
-		} else {
+		const char8_t * const last_unit = --ptr;
+		
+		// find front unit of the code point
+		unsigned length = 0;
+		while (length < 3 && ptr != begin && is_trailing_unit(*ptr)) {
 			--ptr;
+			++length;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
-			--ptr;
+		// last unit is not part of any code point
+		if (trailing_units(*ptr) < length) {
+			ptr = last_unit;
 		}
 		
 		return *this;
@@ -3278,7 +3332,7 @@ struct utf8_iterator {
 		}
 
 		// if part of the utf-8 sequence is past the end
-		if (((ptr + length) >= end)) CTRE_UNLIKELY {
+		if (static_cast<size_t>(end - ptr) <= length) CTRE_UNLIKELY {
 			return mojibake;
 		}
 		
@@ -3299,7 +3353,7 @@ struct utf8_iterator {
 
 		// add rest of trailing units
 		if (length == 1) CTRE_LIKELY {
-			return result;
+			return result < 0x80u ? mojibake : result;
 		}
 
 		if ((ptr[2] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
@@ -3309,14 +3363,18 @@ struct utf8_iterator {
 		result = (result << 6) | (ptr[2] & 0b0011'1111u);
 
 		if (length == 2) CTRE_LIKELY {
-			return result;
+			// overlong or surrogate
+			return result < 0x800u || (result >= 0xD800u && result <= 0xDFFFu) ? mojibake : result;
 		}
 
 		if ((ptr[3] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
 			return mojibake;
 		}
 
-		return (result << 6) | (ptr[3] & 0b0011'1111u);
+		result = (result << 6) | (ptr[3] & 0b0011'1111u);
+		
+		// overlong or out of range
+		return result < 0x10000u || result > 0x10FFFFu ? mojibake : result;
 	}
 };
 
@@ -3326,7 +3384,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
@@ -3544,13 +3602,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
@@ -3833,6 +3891,15 @@ public:
 		_captures.template select<Id>().set_end(pos).matched();
 		return *this;
 	}
+	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture_from_end(Iterator pos) noexcept {
+		_captures.template select<Id>().set_end(pos);
+		return *this;
+	}
+	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture_at_begin(Iterator pos) noexcept {
+		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().matched();
+		return *this;
+	}
 	constexpr auto begin() const noexcept {
 		return _captures.template select<0>().begin();
 	}
@@ -4002,6 +4069,18 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 	return find_captures(ctll::list<Content..., Tail...>(), output);
 }
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_positive<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_negative<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), ctll::list<Output..., captured_content<Id>>());
 }
@@ -4020,33 +4099,55 @@ CTRE_EXPORT template <size_t Id, typename Name, typename... Content, typename...
 namespace ctre {
 	
 struct can_be_anything {};
-	
+
+// nothing more needs to be matched
+struct can_be_nothing {};
+
+// only a line end in the multiline mode
+struct can_be_line_end {};
+
 
 template <typename... Content> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<accept, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<accept, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_cycle_mark, Tail...>) noexcept {
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<end_cycle_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
+}
+
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<end_lookahead_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
+}
+
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_nothing>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Tail...>) noexcept {
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
 	return l;
 }
 
+// mode can change meaning of everything after it
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -4058,16 +4159,31 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 	return first(l, ctll::list<Tail...>{});
 }
 
+// assert which doesn't consume anything, result of it depends on the position, so if there is nothing to be matched after it it can be anything
+template <typename... Content, typename... Next> 
+constexpr auto first_after_assert(ctll::list<Content...>, ctll::list<Next...>) noexcept {
+	if constexpr ((std::is_same_v<Next, can_be_nothing> || ... || false)) {
+		return ctll::list<can_be_anything>{};
+	} else {
+		return ctll::list<Content..., Next...>{};
+	}
+}
+
 // boundary
 template <typename... Content, typename CharLike, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
+}
+
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 template <typename... Content, typename... Tail> 
@@ -4076,21 +4192,19 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
 	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	return ctll::list<Content..., can_be_line_end>{};
 }
 
 // sequence
@@ -4377,17 +4491,28 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// double negation (content of the negative set inside is only approximated)
+template <typename... Content, typename CB> 
+constexpr int64_t negative_helper(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> 
+constexpr int64_t negative_helper(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
 	start = negative_helper(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
-template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+template <typename Head, typename... Rest, typename CB> constexpr void negative_set_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	start = negative_helper(Head{}, cb, start);
-	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
+	negative_set_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
-template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+template <typename CB> constexpr void negative_set_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	if (start < (std::numeric_limits<int64_t>::max)()) {
 		cb(start, (std::numeric_limits<int64_t>::max)());
 	}
@@ -4395,7 +4520,7 @@ template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB &
 
 // simple fixed set
 // TODO: this needs some optimizations
-template <size_t Capacity> class point_set {
+template <size_t Capacity, bool AnyMode = false> class point_set {
 	struct point {
 		int64_t low{};
 		int64_t high{};
@@ -4469,7 +4594,17 @@ public:
 		insert_point(low, high);
 		//insert_point(high, low);
 	}
+	constexpr bool check_case_insensitive(int64_t low, int64_t high, int64_t first, int64_t last, int64_t shift) {
+		// only part which is between first and last has other case
+		if (low < first) low = first;
+		if (high > last) high = last;
+		return low <= high && check_exactly(low + shift, high + shift);
+	}
 	constexpr bool check(int64_t low, int64_t high) {
+		if (check_exactly(low, high)) return true;
+		return AnyMode && (check_case_insensitive(low, high, 'a', 'z', 'A' - 'a') || check_case_insensitive(low, high, 'A', 'Z', 'a' - 'A'));
+	}
+	constexpr bool check_exactly(int64_t low, int64_t high) {
 		for (const auto & r: *this) {
 			if (r.low <= low && low <= r.high) {
 				return true;
@@ -4494,6 +4629,12 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	constexpr bool check(can_be_nothing) {
+		return false;
+	}
+	constexpr bool check(can_be_line_end) {
+		return AnyMode && check('\n', '\n');
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
@@ -4505,11 +4646,14 @@ public:
 	}
 	template <typename... Content> constexpr bool check(ctre::negative_set<Content...> nset) {
 		bool collision = false;
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			collision |= this->check(low, high);
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
@@ -4528,13 +4672,17 @@ public:
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
 	}
+	constexpr void populate(can_be_nothing) { }
+	constexpr void populate(can_be_line_end) {
+		if (AnyMode) insert('\n', '\n');
+	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
 		points[0].high = (std::numeric_limits<int64_t>::max)();
 		used = 1;
 	}
 	template <typename... Content> constexpr void populate(ctre::negative_set<Content...> nset) {
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			this->insert(low, high);
 		});
 	}
@@ -4546,10 +4694,11 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
+// (AnyMode: take case-insensitive and multiline mode into account)
+template <bool AnyMode = false, typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set;
+	point_set<capacity, AnyMode> set;
 	set.populate(rhs);
 	
 	return set.check(lhs);
@@ -4593,6 +4742,50 @@ template <size_t Limit> constexpr CTRE_FORCE_INLINE bool less_than([[maybe_unuse
 constexpr bool is_bidirectional(const std::bidirectional_iterator_tag &) { return true; }
 constexpr bool is_bidirectional(...) { return false; }
 
+// there must be something between begin and current
+template <typename BeginIterator, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator previous_position([[maybe_unused]] const BeginIterator begin, Iterator current) noexcept {
+	if constexpr (is_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{})) {
+		return std::prev(current);
+	} else {
+		Iterator result = begin;
+		for (Iterator next = result; ++next != current; ) result = next;
+		return result;
+	}
+}
+
+// lookbehind is evaluated with reverse iterators, but results always contain original ones
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(Iterator it) noexcept {
+	return std::make_reverse_iterator(it);
+}
+
+// lookahead inside lookbehind
+template <typename Iterator> constexpr CTRE_FORCE_INLINE auto other_direction(std::reverse_iterator<Iterator> it) noexcept {
+	return it.base();
+}
+
+template <typename R> using result_position = decltype(std::declval<const R &>().get_end_position());
+
+template <typename R, typename Iterator> constexpr bool is_other_direction = !std::is_convertible_v<Iterator, result_position<R>>;
+
+template <typename R, typename Iterator> constexpr CTRE_FORCE_INLINE auto to_result_position(Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return other_direction(current);
+	} else {
+		return current;
+	}
+}
+
+template <typename R, typename Iterator> constexpr CTRE_FORCE_INLINE Iterator from_result_position(Iterator current, result_position<R> position) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		auto tmp = other_direction(current);
+		tmp = position;
+		return other_direction(tmp);
+	} else {
+		current = position;
+		return current;
+	}
+}
+
 // sink for making the errors shorter
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator, const EndIterator, flags, R, ...) noexcept {
@@ -4630,7 +4823,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator, Iterator current, co
 		return not_matched;
 	}
 	
-	return captures.set_end_mark(current).matched();
+	return captures.set_end_mark(to_result_position<R>(current)).matched();
 }
 
 // matching everything which behave as a one character matcher
@@ -4740,7 +4933,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	if (multiline_mode(f)) {
 		if (begin == current) {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
-		} else if (*std::prev(current) == '\n') {
+		} else if (*previous_position(begin, current) == '\n') {
 			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 		} else {
 			return not_matched;
@@ -4828,12 +5021,12 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		size_t i{0};
 	
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto outer_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
 			captures = outer_result.unmatch();
-			current = outer_result.get_end_position();
+			current = from_result_position<R>(current, outer_result.get_end_position());
 		
 			++i;
 		}
@@ -4847,20 +5040,20 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			auto outer_result = evaluate(begin, from_result_position<R>(current, inner_result.get_end_position()), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
 		
 			if (outer_result) {
 				return outer_result;
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		
 			++i;
 		}
 	
-		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		// rest of regex was already tried after the last cycle
+		return not_matched;
 	}
 }
 
@@ -4875,7 +5068,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
 			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// (mandatory cycles can be empty)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? can_be_empty_match(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -4883,7 +5077,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		}
 	
 		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
@@ -4908,23 +5102,23 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			//  return inner_result
 			// I tried to add all constructors to R but without any success
 			auto tmp_current = current;
-			tmp_current = inner_result.get_end_position();
+			tmp_current = from_result_position<R>(current, inner_result.get_end_position());
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -4937,51 +5131,79 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+	else if constexpr (!collides<true>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
+#ifndef CTRE_DISABLE_GREEDY_OPT
+		if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			// it's ok only without case-insensitive and multiline mode
+			if (!is_case_insensitive(f) && !multiline_mode(f)) {
+				return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+			}
+		}
+	
+#endif
+		const Iterator backup_current = current;
+	
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = from_result_position<R>(current, inner_result.get_end_position());
 		
 			++i;
 		}
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
 }
 
+// in lookbehind a capture starts with its end
+template <size_t Id, typename R, typename Iterator> constexpr CTRE_FORCE_INLINE R start_capture(R captures, Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return captures.template start_capture_from_end<Id>(to_result_position<R>(current));
+	} else {
+		return captures.template start_capture<Id>(current);
+	}
+}
+
+template <size_t Id, typename R, typename Iterator> constexpr CTRE_FORCE_INLINE R end_capture(R captures, Iterator current) noexcept {
+	if constexpr (is_other_direction<R, Iterator>) {
+		return captures.template end_capture_at_begin<Id>(to_result_position<R>(current));
+	} else {
+		return captures.template end_capture<Id>(current);
+	}
+}
+
 // capture (numeric ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<capture<Id, Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template start_capture<Id>(current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
+	return evaluate(begin, current, last, f, start_capture<Id>(captures, current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
 }
 
 // capture end mark (numeric and string ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template end_capture<Id>(current), ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, end_capture<Id>(captures, current), ctll::list<Tail...>());
 }
 
 // capture (string ID)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t Id, typename Name, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<capture_with_name<Id, Name, Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures.template start_capture<Id>(current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
+	return evaluate(begin, current, last, f, start_capture<Id>(captures, current), ctll::list<sequence<Content...>, numeric_mark<Id>, Tail...>());
 }
 
 // backreference support (match agains content of iterators)
@@ -4990,9 +5212,9 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (*current == *range_current || (is_case_insensitive(f) && is_ascii_alpha(*current) && (*current ^ 0x20) == *range_current)) {
 			current++;
 			range_current++;
 		} else {
@@ -5002,12 +5224,23 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+template <typename R, typename Iterator, typename EndIterator, typename Capture> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_capture(Iterator current, const EndIterator last, const Capture & ref, const flags & f) noexcept {
+	const auto ref_begin = from_result_position<R>(current, ref.begin());
+	const auto ref_end = from_result_position<R>(current, ref.end());
+	
+	if constexpr (is_other_direction<R, Iterator>) {
+		return match_against_range(current, last, ref_end, ref_begin, f);
+	} else {
+		return match_against_range(current, last, ref_begin, ref_end, f);
+	}
+}
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		if (auto result = match_against_capture<R>(current, last, ref, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
@@ -5019,7 +5252,7 @@ template <typename R, size_t Id, typename BeginIterator, typename Iterator, type
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		if (auto result = match_against_capture<R>(current, last, ref, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
@@ -5075,7 +5308,7 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	if (auto lookbehind_result = evaluate(other_direction(last), other_direction(current), other_direction(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		captures = lookbehind_result.unmatch();
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	} else {
@@ -5088,7 +5321,7 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_negative<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use negative lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	if (auto lookbehind_result = evaluate(other_direction(last), other_direction(current), other_direction(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return not_matched;
 	} else {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
@@ -5168,7 +5401,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 		
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		auto next = current;
+		
+		// don't find same empty match again
+		if (current_match.begin() == current_match.end()) ++next;
+		
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, next, end);
 		
 		if (current_match) {
 			current = current_match.template get<0>().end();
@@ -5232,11 +5470,27 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		current = tmp;
 	}
 	
+	// an empty match doesn't separate anything, look for the first non-empty one
+	constexpr CTRE_FORCE_INLINE void skip_empty_matches() {
+		auto next = current;
+		while (current_match && current_match.begin() == current_match.end()) {
+			next = current_match.end();
+			current_match = value_type{};
+			if (next == end) {
+				current_match.set_end_mark(next);
+			} else {
+				current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, ++next, end);
+			}
+		}
+	}
+	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
 		current_match.set_start_mark(current);
 		current_match.matched();
+		// the end is there set by search_method (but it didn't move from the start if the pattern is anchored)
 		current = current_match.template get<0>().end();
+		while (current != end) ++current;
+		current_match.set_end_mark(current);
 		last_match = true;
 	}
 
@@ -5245,6 +5499,8 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(regex_split_iterator &&) noexcept = default;
 
 	constexpr CTRE_FORCE_INLINE regex_split_iterator(BeginIterator begin, EndIterator last) noexcept: orig_begin{begin}, current{begin}, end{last}, current_match{RE::template exec_with_result_iterator<ResultIterator>(current, last)} {
+		skip_empty_matches();
+		
 		if (current_match) {
 			modify_match();
 		} else {
@@ -5265,6 +5521,7 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		}
 	
 		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		skip_empty_matches();
 	
 		if (current_match) {
 			modify_match();
@@ -5570,6 +5827,20 @@ struct starts_with_method {
 	}
 };
 
+// token must not be empty (it would be there forever)
+struct token_method {
+	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin orig_begin, IteratorBegin begin, IteratorEnd end, RE) noexcept {
+		auto out = starts_with_method::exec<Modifier, ResultIterator>(orig_begin, begin, end, RE{});
+		
+		if (out && out.begin() == out.end()) out.unmatch();
+		return out;
+	}
+
+	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
+		return exec<Modifier, ResultIterator>(begin, begin, end, RE{});
+	}
+};
+
 // wrapper which calls search on input
 struct range_method {
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
@@ -5583,7 +5854,7 @@ struct range_method {
 struct tokenize_method {
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin begin, IteratorEnd end, RE) noexcept {
 		using result_iterator = std::conditional_t<std::is_same_v<ResultIterator, void>, IteratorBegin, ResultIterator>;
-		using wrapped_regex = regular_expression<RE, starts_with_method, Modifier>;
+		using wrapped_regex = regular_expression<RE, token_method, Modifier>;
 
 		return regex_range<IteratorBegin, IteratorEnd, wrapped_regex, result_iterator>(begin, end);
 	}
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index 385576b..33bfb7b 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -1975,10 +1975,10 @@ namespace detail::tables {
          0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6},
         {0x0000000000000000, 0x0800000008000002, 0x0020000000200000, 0x0000800000008000,
          0x0000020000000200, 0x0000000000000008, 0x0003000000000000}};
-    static constexpr flat_array<26> cat_pd{{0x1400, 0x1806,  0x058A, 0xFF0D, 0x2010, 0x2011, 0x2012,
-                                            0x2013, 0x2014,  0x2015, 0x2E17, 0x2E1A, 0x301C, 0x30A0,
-                                            0x002D, 0x10EAD, 0x3030, 0xFE31, 0xFE32, 0x2E3A, 0x2E3B,
-                                            0x05BE, 0x2E40,  0xFE58, 0x2E5D, 0xFE63}};
+    static constexpr flat_array<26> cat_pd{{0x002D, 0x058A,  0x05BE, 0x1400, 0x1806, 0x2010, 0x2011,
+                                            0x2012, 0x2013,  0x2014, 0x2015, 0x2E17, 0x2E1A, 0x2E3A,
+                                            0x2E3B, 0x2E40, 0x2E5D, 0x301C, 0x3030, 0x30A0, 0xFE31,
+                                            0xFE32, 0xFE58,  0xFE63, 0xFF0D, 0x10EAD}};
     static constexpr bool_trie<32, 984, 5, 3, 9, 255, 1, 0, 414, 18, 16, 8> cat_nd{
         {0x03ff000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -3195,7 +3195,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
@@ -5738,9 +5738,9 @@ namespace detail::tables {
         {0x0000000000000000, 0x0000001fc0000000, 0xf800000000000000, 0x0000000000000001,
          0xffffffffffffffff, 0x000000003fffffff}};
     static constexpr flat_array<30> prop_dash_data{
-        {0x1400, 0x1806, 0x058A, 0x208B, 0xFF0D, 0x2010, 0x2011, 0x2012,  0x2013, 0x2014,
-         0x2015, 0x2212, 0x2E17, 0x2E1A, 0x301C, 0x30A0, 0x002D, 0x10EAD, 0x3030, 0xFE31,
-         0xFE32, 0x2E3A, 0x2E3B, 0x05BE, 0x2E40, 0x2053, 0xFE58, 0x2E5D,  0xFE63, 0x207B}};
+        {0x002D, 0x058A, 0x05BE, 0x1400, 0x1806, 0x2010, 0x2011, 0x2012,  0x2013, 0x2014,
+         0x2015, 0x2053, 0x207B, 0x208B, 0x2212, 0x2E17, 0x2E1A, 0x2E3A, 0x2E3B, 0x2E40,
+         0x2E5D, 0x301C, 0x3030, 0x30A0, 0xFE31, 0xFE32, 0xFE58, 0xFE63,  0xFF0D, 0x10EAD}};
     static constexpr flat_array<15> prop_dep_data{{0xE0001, 0x17A3, 0x17A4, 0x0149, 0x206A, 0x206B,
                                                    0x206C, 0x206D, 0x206E, 0x206F, 0x2329, 0x232A,
                                                    0x0673, 0x0F77, 0x0F79}};
@@ -5918,11 +5918,11 @@ namespace detail::tables {
              0x1ff01800e0e7103f, 0x00010fff00000000, 0xf7fffffffffff000, 0xffffffffffffffbf,
              0x1f1f000000000000, 0x07ff1fffffff007f, 0x007f00ff03ff003f}};
     static constexpr flat_array<50> prop_ext_data{
-        {0x10781, 0x10782, 0x3005,  0x180A,  0xA60C, 0xA015, 0x11A98, 0x309D,  0x309E,  0x1AA7,
-         0x3031,  0x3032,  0x3033,  0x3034,  0x3035, 0x1C36, 0x00B7,  0x1E13C, 0x1E13D, 0x0640,
-         0x16B42, 0x1843,  0x16B43, 0x1E944, 0x0E46, 0x0EC6, 0x115C6, 0x115C7, 0x115C8, 0x1E945,
-         0x1E946, 0xA9CF,  0x02D0,  0x02D1,  0x0B55, 0xAADD, 0x1135D, 0x16FE0, 0x16FE1, 0x16FE3,
-         0xA9E6,  0xAA70,  0xFF70,  0xAAF3,  0xAAF4, 0x07FA, 0x1C7B,  0x30FC,  0x30FD,  0x30FE}};
+        {0x00B7, 0x02D0, 0x02D1,  0x0640,  0x07FA, 0x0B55, 0x0E46, 0x0EC6,  0x180A,  0x1843,
+         0x1AA7,  0x1C36,  0x1C7B,  0x3005,  0x3031, 0x3032, 0x3033,  0x3034, 0x3035, 0x309D,
+         0x309E, 0x30FC,  0x30FD, 0x30FE, 0xA015, 0xA60C, 0xA9CF, 0xA9E6, 0xAA70, 0xAADD,
+         0xAAF3, 0xAAF4,  0xFF70,  0x10781,  0x10782, 0x1135D, 0x115C6, 0x115C7, 0x115C8, 0x11A98,
+         0x16B42,  0x16B43,  0x16FE0,  0x16FE1,  0x16FE3, 0x1E13C, 0x1E13D,  0x1E944,  0x1E945,  0x1E946}};
     static constexpr bool_trie<32, 75, 96, 821, 22, 1, 15, 240, 44, 64, 20, 22>
         prop_extended_pictographic_data{
             {0x0000000000000000, 0x0000000000000000, 0x0000420000000000, 0x0000000000000000,
@@ -6487,11 +6487,11 @@ namespace detail::tables {
         0x00000000, 0x002E8001, 0x002E9A00, 0x002E9B01, 0x002EF400, 0x002F0001, 0x002FD600};
     static constexpr range_array prop_ri_data = {0x00000000, 0x01F1E601, 0x01F20000};
     static constexpr flat_array<47> prop_sd_data{
-        {0x1D48A, 0x1D48B, 0x1D58E, 0x1D58F, 0x1D692, 0x1D693, 0x1D96,  0x1DF1A, 0x029D, 0x1D422,
-         0x1D423, 0x1DA4,  0x1D526, 0x1D527, 0x1DA8,  0x1D62A, 0x1D62B, 0x1E2D,  0x012F, 0x02B2,
-         0x1D4BE, 0x1D4BF, 0x1D5C2, 0x1D5C3, 0x2148,  0x2149,  0x0249,  0x1ECB,  0x0456, 0x1D456,
-         0x0458,  0x1D457, 0x1D55A, 0x1D55B, 0x1D65E, 0x1D65F, 0x1D62,  0x0268,  0x0069, 0x006A,
-         0x2071,  0x1D4F2, 0x03F3,  0x1D4F3, 0x1D5F6, 0x1D5F7, 0x2C7C}};
+        {0x0069, 0x006A, 0x012F, 0x0249, 0x0268, 0x029D, 0x02B2,  0x03F3, 0x0456, 0x0458,
+         0x1D62, 0x1D96,  0x1DA4, 0x1DA8, 0x1E2D,  0x1ECB, 0x2071, 0x2148,  0x2149, 0x2C7C,
+         0x1D422, 0x1D423, 0x1D456, 0x1D457, 0x1D48A,  0x1D48B,  0x1D4BE,  0x1D4BF,  0x1D4F2, 0x1D4F3,
+         0x1D526,  0x1D527, 0x1D55A, 0x1D55B, 0x1D58E, 0x1D58F, 0x1D5C2,  0x1D5C3,  0x1D5F6, 0x1D5F7,
+         0x1D62A,  0x1D62B, 0x1D65E,  0x1D65F, 0x1D692, 0x1D693, 0x1DF1A}};
     static constexpr bool_trie<32, 991, 1, 0, 30, 255, 1, 0, 322, 41, 21, 25> prop_sterm_data{
         {0x8000400200000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -7422,8 +7422,20 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    // Word_Break is MidLetter, MidNumLet or Single_Quote
+    constexpr char32_t word_break[] = {0x0027, 0x002E, 0x003A, 0x00B7, 0x0387, 0x055F,
+                                       0x05F4, 0x2018, 0x2019, 0x2024, 0x2027, 0xFE13,
+                                       0xFE52, 0xFE55, 0xFF07, 0xFF0E, 0xFF1A};
+    for(char32_t c : word_break) {
+        if(c == cp)
+            return true;
+    }
+    return detail::tables::cat_mn.lookup(char32_t(cp)) ||
+           detail::tables::cat_me.lookup(char32_t(cp)) ||
+           detail::tables::cat_cf.lookup(char32_t(cp)) ||
+           detail::tables::cat_lm.lookup(char32_t(cp)) ||
+           detail::tables::cat_sk.lookup(char32_t(cp));
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
@@ -7438,7 +7450,9 @@ constexpr bool cp_is_valid(char32_t cp) {
     return char32_t(cp) <= 0x10FFFF;
 }
 constexpr bool cp_is_assigned(char32_t cp) {
-    return detail::tables::prop_assigned.lookup(char32_t(cp));
+    return detail::tables::prop_assigned.lookup(char32_t(cp)) ||
+           detail::tables::cat_co.lookup(char32_t(cp)) ||
+           detail::tables::cat_cs.lookup(char32_t(cp));
 }
 
 constexpr bool cp_is_ascii(char32_t cp) {
-- 
2.43.0


From 452dc78578ecea8bc1373a70a684f61cacf2ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 28/65] fix: a back reference by name at the beginning of a
 named capture is not part of the name of the capture

---
 include/ctre/actions/capture.inc.hpp | 4 ++--
 include/ctre/pcre.gram               | 2 +-
 include/ctre/pcre.hpp                | 5 +++--
 single-header/ctre-unicode.hpp       | 9 +++++----
 single-header/ctre.hpp               | 9 +++++----
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/ctre/actions/capture.inc.hpp b/include/ctre/actions/capture.inc.hpp
index ebf5437..eff78da 100644
--- a/include/ctre/actions/capture.inc.hpp
+++ b/include/ctre/actions/capture.inc.hpp
@@ -19,8 +19,8 @@ template <auto V, typename A, size_t Id, typename... Ts, size_t Counter> static
 template <auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture<Id, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
-// push_name
-template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
+// start_name
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::start_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<V>(), subject.stack), subject.parameters};
 }
 // push_name (concat)
diff --git a/include/ctre/pcre.gram b/include/ctre/pcre.gram
index f86efdf..518c997 100644
--- a/include/ctre/pcre.gram
+++ b/include/ctre/pcre.gram
@@ -78,7 +78,7 @@ block->questionmark,angle_open,exclamation_mark,[reset_capture],[start_lookbehin
 block->questionmark,colon,[reset_capture],<content_in_capture>,close
 block->questionmark,angle_open,<block_name>,angle_close,<content_in_capture>,[make_capture_with_name],close
 
-block_name->alpha_characters,[push_name],<block_name2>
+block_name->alpha_characters,[start_name],<block_name2>
 block_name2->alphanum_characters,[push_name],<block_name2>|epsilon
 
 mode_switch->i,[mode_case_insensitive],<mode_switch2>
diff --git a/include/ctre/pcre.hpp b/include/ctre/pcre.hpp
index 70ee731..cb6b368 100644
--- a/include/ctre/pcre.hpp
+++ b/include/ctre/pcre.hpp
@@ -139,6 +139,7 @@ struct pcre {
 	struct start_lookahead_positive: ctll::action {};
 	struct start_lookbehind_negative: ctll::action {};
 	struct start_lookbehind_positive: ctll::action {};
+	struct start_name: ctll::action {};
 
 // (q)LL1 function:
 	using _others = ctll::neg_set<'!','$','\x28','\x29','*','+',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','?','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','\x7B','|','\x7D'>;
@@ -227,7 +228,7 @@ struct pcre {
 	static constexpr auto rule(block_name2, ctll::set<'>','\x7D'>) -> ctll::epsilon;
 	static constexpr auto rule(block_name2, ctll::set<'0','1','2','3','4','5','6','7','8','9','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2>;
 
-	static constexpr auto rule(block_name, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2>;
+	static constexpr auto rule(block_name, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, start_name, block_name2>;
 
 	static constexpr auto rule(c, ctll::term<'['>) -> ctll::push<ctll::anything, ctll::term<':'>, i, range, set_start, set2b, set_make, ctll::term<']'>>;
 	static constexpr auto rule(c, ctll::term<'\\'>) -> ctll::push<ctll::anything, e, set_start, set2b, set_make, ctll::term<']'>>;
@@ -368,7 +369,7 @@ struct pcre {
 
 	static constexpr auto rule(m, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2, ctll::term<'\x7D'>, make_back_reference>;
 	static constexpr auto rule(m, ctll::term<'-'>) -> ctll::push<ctll::anything, number, ctll::term<'\x7D'>, make_relative_back_reference>;
-	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
+	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, start_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
 
 	static constexpr auto rule(mod, ctll::set<'!','$','\x28','\x29',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','|'>) -> ctll::epsilon;
 	static constexpr auto rule(mod, ctll::epsilon) -> ctll::epsilon;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 102876d..94b31a4 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1110,6 +1110,7 @@ struct pcre {
 	struct start_lookahead_positive: ctll::action {};
 	struct start_lookbehind_negative: ctll::action {};
 	struct start_lookbehind_positive: ctll::action {};
+	struct start_name: ctll::action {};
 
 // (q)LL1 function:
 	using _others = ctll::neg_set<'!','$','\x28','\x29','*','+',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','?','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','\x7B','|','\x7D'>;
@@ -1198,7 +1199,7 @@ struct pcre {
 	static constexpr auto rule(block_name2, ctll::set<'>','\x7D'>) -> ctll::epsilon;
 	static constexpr auto rule(block_name2, ctll::set<'0','1','2','3','4','5','6','7','8','9','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2>;
 
-	static constexpr auto rule(block_name, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2>;
+	static constexpr auto rule(block_name, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, start_name, block_name2>;
 
 	static constexpr auto rule(c, ctll::term<'['>) -> ctll::push<ctll::anything, ctll::term<':'>, i, range, set_start, set2b, set_make, ctll::term<']'>>;
 	static constexpr auto rule(c, ctll::term<'\\'>) -> ctll::push<ctll::anything, e, set_start, set2b, set_make, ctll::term<']'>>;
@@ -1339,7 +1340,7 @@ struct pcre {
 
 	static constexpr auto rule(m, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2, ctll::term<'\x7D'>, make_back_reference>;
 	static constexpr auto rule(m, ctll::term<'-'>) -> ctll::push<ctll::anything, number, ctll::term<'\x7D'>, make_relative_back_reference>;
-	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
+	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, start_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
 
 	static constexpr auto rule(mod, ctll::set<'!','$','\x28','\x29',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','|'>) -> ctll::epsilon;
 	static constexpr auto rule(mod, ctll::epsilon) -> ctll::epsilon;
@@ -2328,8 +2329,8 @@ template <auto V, typename A, size_t Id, typename... Ts, size_t Counter> static
 template <auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture<Id, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
-// push_name
-template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
+// start_name
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::start_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<V>(), subject.stack), subject.parameters};
 }
 // push_name (concat)
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 1daa6b7..43c2797 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1107,6 +1107,7 @@ struct pcre {
 	struct start_lookahead_positive: ctll::action {};
 	struct start_lookbehind_negative: ctll::action {};
 	struct start_lookbehind_positive: ctll::action {};
+	struct start_name: ctll::action {};
 
 // (q)LL1 function:
 	using _others = ctll::neg_set<'!','$','\x28','\x29','*','+',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','?','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','\x7B','|','\x7D'>;
@@ -1195,7 +1196,7 @@ struct pcre {
 	static constexpr auto rule(block_name2, ctll::set<'>','\x7D'>) -> ctll::epsilon;
 	static constexpr auto rule(block_name2, ctll::set<'0','1','2','3','4','5','6','7','8','9','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2>;
 
-	static constexpr auto rule(block_name, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2>;
+	static constexpr auto rule(block_name, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, start_name, block_name2>;
 
 	static constexpr auto rule(c, ctll::term<'['>) -> ctll::push<ctll::anything, ctll::term<':'>, i, range, set_start, set2b, set_make, ctll::term<']'>>;
 	static constexpr auto rule(c, ctll::term<'\\'>) -> ctll::push<ctll::anything, e, set_start, set2b, set_make, ctll::term<']'>>;
@@ -1336,7 +1337,7 @@ struct pcre {
 
 	static constexpr auto rule(m, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2, ctll::term<'\x7D'>, make_back_reference>;
 	static constexpr auto rule(m, ctll::term<'-'>) -> ctll::push<ctll::anything, number, ctll::term<'\x7D'>, make_relative_back_reference>;
-	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
+	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, start_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
 
 	static constexpr auto rule(mod, ctll::set<'!','$','\x28','\x29',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','|'>) -> ctll::epsilon;
 	static constexpr auto rule(mod, ctll::epsilon) -> ctll::epsilon;
@@ -2325,8 +2326,8 @@ template <auto V, typename A, size_t Id, typename... Ts, size_t Counter> static
 template <auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture<Id, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
-// push_name
-template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
+// start_name
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::start_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<V>(), subject.stack), subject.parameters};
 }
 // push_name (concat)
-- 
2.43.0


From dd066a334050a8fe734bae3bf8e91163cf1ae0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 29/65] fix: element repeated exactly zero times is not matched
 at all, instead of any number of times

---
 include/ctre/actions/repeat.inc.hpp | 8 ++++++++
 single-header/ctre-unicode.hpp      | 8 ++++++++
 single-header/ctre.hpp              | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 98c2e0b..979756a 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -47,6 +47,14 @@ template <auto V, typename... Content, size_t A, typename... Ts, typename Parame
 	return pcre_context{ctll::push_front(repeat<A,A,Content...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// repeat_exactly 0 (content is never evaluated, but its captures exist)
+template <auto V, typename Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<0>, Subject, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(atomic_group<select<empty, Subject>>(), ctll::list<Ts...>()), subject.parameters};
+}
+template <auto V, typename... Content, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<0>, sequence<Content...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(atomic_group<select<empty, sequence<Content...>>>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 // repeat_at_least (A+) 
 template <auto V, typename Subject, size_t A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_at_least, ctll::term<V>, pcre_context<ctll::list<number<A>, Subject, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(repeat<A,0,Subject>(), ctll::list<Ts...>()), subject.parameters};
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 94b31a4..2f03b6e 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2849,6 +2849,14 @@ template <auto V, typename... Content, size_t A, typename... Ts, typename Parame
 	return pcre_context{ctll::push_front(repeat<A,A,Content...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// repeat_exactly 0 (content is never evaluated, but its captures exist)
+template <auto V, typename Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<0>, Subject, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(atomic_group<select<empty, Subject>>(), ctll::list<Ts...>()), subject.parameters};
+}
+template <auto V, typename... Content, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<0>, sequence<Content...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(atomic_group<select<empty, sequence<Content...>>>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 // repeat_at_least (A+) 
 template <auto V, typename Subject, size_t A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_at_least, ctll::term<V>, pcre_context<ctll::list<number<A>, Subject, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(repeat<A,0,Subject>(), ctll::list<Ts...>()), subject.parameters};
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 43c2797..30559d7 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2846,6 +2846,14 @@ template <auto V, typename... Content, size_t A, typename... Ts, typename Parame
 	return pcre_context{ctll::push_front(repeat<A,A,Content...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// repeat_exactly 0 (content is never evaluated, but its captures exist)
+template <auto V, typename Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<0>, Subject, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(atomic_group<select<empty, Subject>>(), ctll::list<Ts...>()), subject.parameters};
+}
+template <auto V, typename... Content, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<0>, sequence<Content...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(atomic_group<select<empty, sequence<Content...>>>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 // repeat_at_least (A+) 
 template <auto V, typename Subject, size_t A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_at_least, ctll::term<V>, pcre_context<ctll::list<number<A>, Subject, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(repeat<A,0,Subject>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From 590ebef0c9dd8ca8d97f0dd770472b22e375e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 30/65] fix: a temporary container of subjects can be filtered

---
 include/ctre/range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index d1412c3..c195c51 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -42,8 +42,8 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
 		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
-- 
2.43.0


From 4ff9f4d84eddc8edac5cbf1d8b503bb27ea53d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 31/65] fix: comparison sentinel != iterator of a filtered
 range

---
 include/ctre/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index c195c51..394ff46 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -114,7 +114,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From db12155520b0dcf0d4c3a15fb72c4135014466d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 32/65] fix: single headers contain the fixes of filtered
 ranges

---
 single-header/ctre-unicode.hpp | 6 +++---
 single-header/ctre.hpp         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 2f03b6e..80b989e 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5622,8 +5622,8 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
 		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
@@ -5694,7 +5694,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 30559d7..f166417 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5619,8 +5619,8 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
 		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
@@ -5691,7 +5691,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From ff44bd9fdbd3701e23eb4d444b9630ce0f5c4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 33/65] fix: result of search which didn't find anything is an
 empty range, not one from a null pointer

---
 include/ctre/wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index 57b9ff2..f64bd21 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -96,7 +96,8 @@ struct search_method {
 
 		// ALERT: ugly hack
 		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// with the start there too, so the result is an empty range
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
-- 
2.43.0


From e14f85e56d50ab65eb4adec0b1dcaa89e4a2e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 34/65] fix: views of empty and unset captures don't
 dereference iterators

---
 include/ctre/return_type.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index 440fddb..839058e 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -91,7 +91,20 @@ template <size_t Id, typename Name = void> struct captured_content {
 #ifdef _MSC_VER
 			return std::to_address(_begin); // I'm enabling this only for MSVC for now, as some clang old versions with various libraries (random combinations) has different problems
 #else
-			return &*_begin; 
+			// don't dereference an iterator at the end of the subject (empty capture) or one which doesn't point anywhere (capture which is not set)
+			if constexpr (std::is_pointer_v<Iterator>) {
+				return _begin;
+			} else {
+#if defined(__cpp_lib_to_address) && defined(__cpp_lib_concepts) && __cpp_lib_concepts >= 202002L
+			if constexpr (std::contiguous_iterator<Iterator>) {
+				return std::to_address(_begin);
+			} else {
+#endif
+			return _matched ? &*_begin : static_cast<decltype(&*_begin)>(nullptr);
+#if defined(__cpp_lib_to_address) && defined(__cpp_lib_concepts) && __cpp_lib_concepts >= 202002L
+			}
+#endif
+			}
 #endif
 			
 #if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
-- 
2.43.0


From ba3e38065f9de627a8b13360acc88d74f0faa751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 35/65] fix: captures which are not set are not measured by
 their iterators

---
 include/ctre/return_type.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index 839058e..89642b1 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -46,6 +46,16 @@ template <size_t Id, typename Name = void> struct captured_content {
 	public:
 		using char_type = typename std::iterator_traits<Iterator>::value_type;
 		
+	private:
+		// iterators of a capture which is not set don't point into any sequence (and some can't be even measured)
+		constexpr CTRE_FORCE_INLINE size_t distance() const noexcept {
+			return _begin == _end ? size_t{0} : static_cast<size_t>(std::distance(_begin, _end));
+		}
+		constexpr CTRE_FORCE_INLINE std::basic_string<char_type> copy() const noexcept {
+			return _begin == _end ? std::basic_string<char_type>() : std::basic_string<char_type>(_begin, _end);
+		}
+	public:
+		
 		using name = Name;
 	
 		constexpr CTRE_FORCE_INLINE storage() noexcept {}
@@ -121,7 +131,7 @@ template <size_t Id, typename Name = void> struct captured_content {
 		}
 
 		constexpr CTRE_FORCE_INLINE auto size() const noexcept {
-			return static_cast<size_t>(std::distance(begin(), end()));
+			return distance();
 		}
 		
 		constexpr CTRE_FORCE_INLINE size_t unit_size() const noexcept {
@@ -129,10 +139,10 @@ template <size_t Id, typename Name = void> struct captured_content {
 			if constexpr (std::is_same_v<Iterator, utf8_iterator>) {
 				return static_cast<size_t>(std::distance(_begin.ptr, _end.ptr));
 			} else {
-				return static_cast<size_t>(std::distance(begin(), end()));
+				return distance();
 			}
 #else
-			return static_cast<size_t>(std::distance(begin(), end()));
+			return distance();
 #endif
 		}
 		
@@ -178,10 +188,10 @@ template <size_t Id, typename Name = void> struct captured_content {
 			if constexpr (std::is_same_v<Iterator, utf8_iterator>) {
 				return std::basic_string<char_type>(data_unsafe(), static_cast<size_t>(unit_size()));
 			} else {
-				return std::basic_string<char_type>(begin(), end());
+				return copy();
 			}
 #else
-			return std::basic_string<char_type>(begin(), end());
+			return copy();
 #endif
 		}
 		
-- 
2.43.0


From 9f0692a3f5e18f766e979e6edc2259d5adee2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 36/65] fix: single headers contain the fixes of accessors of
 unset results

---
 single-header/ctre-unicode.hpp | 38 +++++++++++++++++++++++++++-------
 single-header/ctre.hpp         | 38 +++++++++++++++++++++++++++-------
 2 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 80b989e..90f4dda 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3453,6 +3453,16 @@ template <size_t Id, typename Name = void> struct captured_content {
 	public:
 		using char_type = typename std::iterator_traits<Iterator>::value_type;
 		
+	private:
+		// iterators of a capture which is not set don't point into any sequence (and some can't be even measured)
+		constexpr CTRE_FORCE_INLINE size_t distance() const noexcept {
+			return _begin == _end ? size_t{0} : static_cast<size_t>(std::distance(_begin, _end));
+		}
+		constexpr CTRE_FORCE_INLINE std::basic_string<char_type> copy() const noexcept {
+			return _begin == _end ? std::basic_string<char_type>() : std::basic_string<char_type>(_begin, _end);
+		}
+	public:
+		
 		using name = Name;
 	
 		constexpr CTRE_FORCE_INLINE storage() noexcept {}
@@ -3498,7 +3508,20 @@ template <size_t Id, typename Name = void> struct captured_content {
 #ifdef _MSC_VER
 			return std::to_address(_begin); // I'm enabling this only for MSVC for now, as some clang old versions with various libraries (random combinations) has different problems
 #else
-			return &*_begin; 
+			// don't dereference an iterator at the end of the subject (empty capture) or one which doesn't point anywhere (capture which is not set)
+			if constexpr (std::is_pointer_v<Iterator>) {
+				return _begin;
+			} else {
+#if defined(__cpp_lib_to_address) && defined(__cpp_lib_concepts) && __cpp_lib_concepts >= 202002L
+			if constexpr (std::contiguous_iterator<Iterator>) {
+				return std::to_address(_begin);
+			} else {
+#endif
+			return _matched ? &*_begin : static_cast<decltype(&*_begin)>(nullptr);
+#if defined(__cpp_lib_to_address) && defined(__cpp_lib_concepts) && __cpp_lib_concepts >= 202002L
+			}
+#endif
+			}
 #endif
 			
 #if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
@@ -3515,7 +3538,7 @@ template <size_t Id, typename Name = void> struct captured_content {
 		}
 
 		constexpr CTRE_FORCE_INLINE auto size() const noexcept {
-			return static_cast<size_t>(std::distance(begin(), end()));
+			return distance();
 		}
 		
 		constexpr CTRE_FORCE_INLINE size_t unit_size() const noexcept {
@@ -3523,10 +3546,10 @@ template <size_t Id, typename Name = void> struct captured_content {
 			if constexpr (std::is_same_v<Iterator, utf8_iterator>) {
 				return static_cast<size_t>(std::distance(_begin.ptr, _end.ptr));
 			} else {
-				return static_cast<size_t>(std::distance(begin(), end()));
+				return distance();
 			}
 #else
-			return static_cast<size_t>(std::distance(begin(), end()));
+			return distance();
 #endif
 		}
 		
@@ -3572,10 +3595,10 @@ template <size_t Id, typename Name = void> struct captured_content {
 			if constexpr (std::is_same_v<Iterator, utf8_iterator>) {
 				return std::basic_string<char_type>(data_unsafe(), static_cast<size_t>(unit_size()));
 			} else {
-				return std::basic_string<char_type>(begin(), end());
+				return copy();
 			}
 #else
-			return std::basic_string<char_type>(begin(), end());
+			return copy();
 #endif
 		}
 		
@@ -5819,7 +5842,8 @@ struct search_method {
 
 		// ALERT: ugly hack
 		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// with the start there too, so the result is an empty range
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index f166417..2c10bf5 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3450,6 +3450,16 @@ template <size_t Id, typename Name = void> struct captured_content {
 	public:
 		using char_type = typename std::iterator_traits<Iterator>::value_type;
 		
+	private:
+		// iterators of a capture which is not set don't point into any sequence (and some can't be even measured)
+		constexpr CTRE_FORCE_INLINE size_t distance() const noexcept {
+			return _begin == _end ? size_t{0} : static_cast<size_t>(std::distance(_begin, _end));
+		}
+		constexpr CTRE_FORCE_INLINE std::basic_string<char_type> copy() const noexcept {
+			return _begin == _end ? std::basic_string<char_type>() : std::basic_string<char_type>(_begin, _end);
+		}
+	public:
+		
 		using name = Name;
 	
 		constexpr CTRE_FORCE_INLINE storage() noexcept {}
@@ -3495,7 +3505,20 @@ template <size_t Id, typename Name = void> struct captured_content {
 #ifdef _MSC_VER
 			return std::to_address(_begin); // I'm enabling this only for MSVC for now, as some clang old versions with various libraries (random combinations) has different problems
 #else
-			return &*_begin; 
+			// don't dereference an iterator at the end of the subject (empty capture) or one which doesn't point anywhere (capture which is not set)
+			if constexpr (std::is_pointer_v<Iterator>) {
+				return _begin;
+			} else {
+#if defined(__cpp_lib_to_address) && defined(__cpp_lib_concepts) && __cpp_lib_concepts >= 202002L
+			if constexpr (std::contiguous_iterator<Iterator>) {
+				return std::to_address(_begin);
+			} else {
+#endif
+			return _matched ? &*_begin : static_cast<decltype(&*_begin)>(nullptr);
+#if defined(__cpp_lib_to_address) && defined(__cpp_lib_concepts) && __cpp_lib_concepts >= 202002L
+			}
+#endif
+			}
 #endif
 			
 #if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
@@ -3512,7 +3535,7 @@ template <size_t Id, typename Name = void> struct captured_content {
 		}
 
 		constexpr CTRE_FORCE_INLINE auto size() const noexcept {
-			return static_cast<size_t>(std::distance(begin(), end()));
+			return distance();
 		}
 		
 		constexpr CTRE_FORCE_INLINE size_t unit_size() const noexcept {
@@ -3520,10 +3543,10 @@ template <size_t Id, typename Name = void> struct captured_content {
 			if constexpr (std::is_same_v<Iterator, utf8_iterator>) {
 				return static_cast<size_t>(std::distance(_begin.ptr, _end.ptr));
 			} else {
-				return static_cast<size_t>(std::distance(begin(), end()));
+				return distance();
 			}
 #else
-			return static_cast<size_t>(std::distance(begin(), end()));
+			return distance();
 #endif
 		}
 		
@@ -3569,10 +3592,10 @@ template <size_t Id, typename Name = void> struct captured_content {
 			if constexpr (std::is_same_v<Iterator, utf8_iterator>) {
 				return std::basic_string<char_type>(data_unsafe(), static_cast<size_t>(unit_size()));
 			} else {
-				return std::basic_string<char_type>(begin(), end());
+				return copy();
 			}
 #else
-			return std::basic_string<char_type>(begin(), end());
+			return copy();
 #endif
 		}
 		
@@ -5816,7 +5839,8 @@ struct search_method {
 
 		// ALERT: ugly hack
 		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// with the start there too, so the result is an empty range
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
-- 
2.43.0


From ac76fdbd774af4266c0d52a4f8d5d7b9a37e8279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 37/65] fix: std::u8string is matched by code points as
 std::u8string_view is

---
 include/ctre/wrapper.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index f64bd21..cb92dcc 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -214,7 +214,16 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 		return exec(sv.begin(), sv.end());
 	}
 	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		// std::u8string is UTF-8 as std::u8string_view is
+		if constexpr (std::is_convertible_v<const std::remove_reference_t<Range> &, std::u8string_view>) {
+			return exec(static_cast<std::u8string_view>(range));
+		} else {
+#endif
 		return exec(std::begin(range), std::end(range));
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		}
+#endif
 	}
 
 	// another api
-- 
2.43.0


From 597eaf4c89902095a31fdb59bb704a3136e302d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 38/65] fix: single headers contain the fix of std::u8string

---
 single-header/ctre-unicode.hpp | 9 +++++++++
 single-header/ctre.hpp         | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 90f4dda..092acc9 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5960,7 +5960,16 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 		return exec(sv.begin(), sv.end());
 	}
 	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		// std::u8string is UTF-8 as std::u8string_view is
+		if constexpr (std::is_convertible_v<const std::remove_reference_t<Range> &, std::u8string_view>) {
+			return exec(static_cast<std::u8string_view>(range));
+		} else {
+#endif
 		return exec(std::begin(range), std::end(range));
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		}
+#endif
 	}
 
 	// another api
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 2c10bf5..4ff8de8 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5957,7 +5957,16 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 		return exec(sv.begin(), sv.end());
 	}
 	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		// std::u8string is UTF-8 as std::u8string_view is
+		if constexpr (std::is_convertible_v<const std::remove_reference_t<Range> &, std::u8string_view>) {
+			return exec(static_cast<std::u8string_view>(range));
+		} else {
+#endif
 		return exec(std::begin(range), std::end(range));
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		}
+#endif
 	}
 
 	// another api
-- 
2.43.0


From cf1f75a2f161996465de5f6902dd973ae2017218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 39/65] fix: unknown scripts, blocks, ages and names of
 properties are syntax errors in their place

---
 include/ctre/actions/properties.inc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/properties.inc.hpp b/include/ctre/actions/properties.inc.hpp
index 05f7e80..e483f36 100644
--- a/include/ctre/actions/properties.inc.hpp
+++ b/include/ctre/actions/properties.inc.hpp
@@ -37,7 +37,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -63,7 +63,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From 8c856a5cb0d015944e23393cce40c7d268b53ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 40/65] fix: single headers contain the fix of unknown property
 names

---
 single-header/ctre-unicode.hpp | 4 ++--
 single-header/ctre.hpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 092acc9..76e241a 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2766,7 +2766,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -2791,7 +2791,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 4ff8de8..ca6f5e1 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2763,7 +2763,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -2788,7 +2788,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From 9d0195366f0d9c060a411a546f5903750429d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 41/65] fix: every letter of a group of mode switches takes
 effect, not only the last one

---
 include/ctre/actions/mode.inc.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/actions/mode.inc.hpp b/include/ctre/actions/mode.inc.hpp
index d4e612b..661e702 100644
--- a/include/ctre/actions/mode.inc.hpp
+++ b/include/ctre/actions/mode.inc.hpp
@@ -10,6 +10,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more letters in one group are switches in a row
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<mode_switch<Previous>...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
-- 
2.43.0


From d43c1bcfb7beb0479a10e7f3c84714c5022e158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 42/65] fix: single headers contain the fix of mode switches

---
 single-header/ctre-unicode.hpp | 9 +++++++++
 single-header/ctre.hpp         | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 76e241a..52f4b4d 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3014,6 +3014,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more letters in one group are switches in a row
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<mode_switch<Previous>...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index ca6f5e1..4475323 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3011,6 +3011,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more letters in one group are switches in a row
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<mode_switch<Previous>...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
-- 
2.43.0


From fc93dc37fa9fc3a6229aebab61869c4ac157ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 43/65] fix: C++17 ctre::pattern and ctre::fixed_string
 constants didn't compile

---
 include/ctre/functions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ctre/functions.hpp b/include/ctre/functions.hpp
index dfda985..66c410c 100644
--- a/include/ctre/functions.hpp
+++ b/include/ctre/functions.hpp
@@ -11,8 +11,8 @@ namespace ctre {
 
 #if !CTRE_CNTTP_COMPILER_CHECK
 // avoiding CTAD limitation in C++17
-template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr pattern(const CharT (&input)[N]) noexcept: parent(input) { }
 };
@@ -20,8 +20,8 @@ public:
 template <typename CharT, size_t N> pattern(const CharT (&)[N]) -> pattern<CharT, N>;
 
 // for better examples
-template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr fixed_string(const CharT (&input)[N]) noexcept: parent(input) { }
 };
-- 
2.43.0


From 9a3854b09932081e34e800c066333b44fe2347eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 44/65] fix: single headers contain the fix of C++17 pattern
 constants

---
 single-header/ctre-unicode.hpp | 8 ++++----
 single-header/ctre.hpp         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 52f4b4d..f76bed0 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -6262,8 +6262,8 @@ namespace ctre {
 
 #if !CTRE_CNTTP_COMPILER_CHECK
 // avoiding CTAD limitation in C++17
-template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr pattern(const CharT (&input)[N]) noexcept: parent(input) { }
 };
@@ -6271,8 +6271,8 @@ public:
 template <typename CharT, size_t N> pattern(const CharT (&)[N]) -> pattern<CharT, N>;
 
 // for better examples
-template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr fixed_string(const CharT (&input)[N]) noexcept: parent(input) { }
 };
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 4475323..fecccd1 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -6259,8 +6259,8 @@ namespace ctre {
 
 #if !CTRE_CNTTP_COMPILER_CHECK
 // avoiding CTAD limitation in C++17
-template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr pattern(const CharT (&input)[N]) noexcept: parent(input) { }
 };
@@ -6268,8 +6268,8 @@ public:
 template <typename CharT, size_t N> pattern(const CharT (&)[N]) -> pattern<CharT, N>;
 
 // for better examples
-template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr fixed_string(const CharT (&input)[N]) noexcept: parent(input) { }
 };
-- 
2.43.0


From 8526b7bcc6a3e4b60c7aa8bb744a6a1447489488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 45/65] fix: implicit conversion of an unset group or a failed
 match to an optional view is empty also for non-const objects

---
 include/ctre/return_type.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index 89642b1..84ac9fa 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -218,6 +218,11 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return to_optional_view();
 		}
 		
+		// without it the converting constructor of std::optional (thru std::basic_string_view) is preferred for a non-const object
+		constexpr CTRE_FORCE_INLINE operator std::optional<std::basic_string_view<char_type>>() noexcept {
+			return to_optional_view();
+		}
+		
 		constexpr CTRE_FORCE_INLINE explicit operator std::optional<std::basic_string<char_type>>() const noexcept {
 			return to_optional_string();
 		}
@@ -447,6 +452,11 @@ public:
 		return to_optional_view();
 	}
 	
+	// without it the converting constructor of std::optional (thru std::basic_string_view) is preferred for a non-const object
+	constexpr CTRE_FORCE_INLINE operator std::optional<std::basic_string_view<char_type>>() noexcept {
+		return to_optional_view();
+	}
+	
 	constexpr CTRE_FORCE_INLINE explicit operator std::optional<std::basic_string<char_type>>() const noexcept {
 		return to_optional_string();
 	}
-- 
2.43.0


From fefa5c80eb5bfb02c354f7062ecb478216733ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 46/65] fix: iterators compare equal only at the same match,
 piece or token

---
 include/ctre/iterators.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index ffadacf..b1ebe67 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -67,22 +67,25 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// an empty match can follow a match which ends at the same position, and there is nothing after the last one
+		if (bool(left.current_match) != bool(right.current_match)) return false;
+		return left.current == right.current && (!left.current_match || left.current_match.begin() == right.current_match.begin());
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current < right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) && !right.current_match;
+		return left.current < right.current || (left.current == right.current && left.current_match.begin() < right.current_match.begin());
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current > right.current;
+		return right < left;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current <= right.current;
+		return !(right < left);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current >= right.current;
+		return !(left < right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, regex_end_iterator) noexcept {
 		return !bool(left.current_match);
@@ -184,22 +187,24 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// the last piece can be an empty one after a separator, and there is nothing after it
+		return left.current == right.current && left.last_match == right.last_match && bool(left.current_match) == bool(right.current_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current < right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) && !right.current_match;
+		return left.current < right.current || (left.current == right.current && !left.last_match && right.last_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current > right.current;
+		return right < left;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current <= right.current;
+		return !(right < left);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current >= right.current;
+		return !(left < right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, regex_end_iterator) noexcept {
 		return !bool(left.current_match);
-- 
2.43.0


From 236d67bc05f75752827ce1a17b9f201b6ad3f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 47/65] fix: carry the optional conversion and the iterator
 comparison over to the single headers

---
 single-header/ctre-unicode.hpp | 39 +++++++++++++++++++++++-----------
 single-header/ctre.hpp         | 39 +++++++++++++++++++++++-----------
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index f76bed0..1692694 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3634,6 +3634,11 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return to_optional_view();
 		}
 		
+		// without it the converting constructor of std::optional (thru std::basic_string_view) is preferred for a non-const object
+		constexpr CTRE_FORCE_INLINE operator std::optional<std::basic_string_view<char_type>>() noexcept {
+			return to_optional_view();
+		}
+		
 		constexpr CTRE_FORCE_INLINE explicit operator std::optional<std::basic_string<char_type>>() const noexcept {
 			return to_optional_string();
 		}
@@ -3863,6 +3868,11 @@ public:
 		return to_optional_view();
 	}
 	
+	// without it the converting constructor of std::optional (thru std::basic_string_view) is preferred for a non-const object
+	constexpr CTRE_FORCE_INLINE operator std::optional<std::basic_string_view<char_type>>() noexcept {
+		return to_optional_view();
+	}
+	
 	constexpr CTRE_FORCE_INLINE explicit operator std::optional<std::basic_string<char_type>>() const noexcept {
 		return to_optional_string();
 	}
@@ -5463,22 +5473,25 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// an empty match can follow a match which ends at the same position, and there is nothing after the last one
+		if (bool(left.current_match) != bool(right.current_match)) return false;
+		return left.current == right.current && (!left.current_match || left.current_match.begin() == right.current_match.begin());
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current < right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) && !right.current_match;
+		return left.current < right.current || (left.current == right.current && left.current_match.begin() < right.current_match.begin());
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current > right.current;
+		return right < left;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current <= right.current;
+		return !(right < left);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current >= right.current;
+		return !(left < right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, regex_end_iterator) noexcept {
 		return !bool(left.current_match);
@@ -5580,22 +5593,24 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// the last piece can be an empty one after a separator, and there is nothing after it
+		return left.current == right.current && left.last_match == right.last_match && bool(left.current_match) == bool(right.current_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current < right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) && !right.current_match;
+		return left.current < right.current || (left.current == right.current && !left.last_match && right.last_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current > right.current;
+		return right < left;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current <= right.current;
+		return !(right < left);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current >= right.current;
+		return !(left < right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, regex_end_iterator) noexcept {
 		return !bool(left.current_match);
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index fecccd1..fed9761 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3631,6 +3631,11 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return to_optional_view();
 		}
 		
+		// without it the converting constructor of std::optional (thru std::basic_string_view) is preferred for a non-const object
+		constexpr CTRE_FORCE_INLINE operator std::optional<std::basic_string_view<char_type>>() noexcept {
+			return to_optional_view();
+		}
+		
 		constexpr CTRE_FORCE_INLINE explicit operator std::optional<std::basic_string<char_type>>() const noexcept {
 			return to_optional_string();
 		}
@@ -3860,6 +3865,11 @@ public:
 		return to_optional_view();
 	}
 	
+	// without it the converting constructor of std::optional (thru std::basic_string_view) is preferred for a non-const object
+	constexpr CTRE_FORCE_INLINE operator std::optional<std::basic_string_view<char_type>>() noexcept {
+		return to_optional_view();
+	}
+	
 	constexpr CTRE_FORCE_INLINE explicit operator std::optional<std::basic_string<char_type>>() const noexcept {
 		return to_optional_string();
 	}
@@ -5460,22 +5470,25 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// an empty match can follow a match which ends at the same position, and there is nothing after the last one
+		if (bool(left.current_match) != bool(right.current_match)) return false;
+		return left.current == right.current && (!left.current_match || left.current_match.begin() == right.current_match.begin());
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current < right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) && !right.current_match;
+		return left.current < right.current || (left.current == right.current && left.current_match.begin() < right.current_match.begin());
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current > right.current;
+		return right < left;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current <= right.current;
+		return !(right < left);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current >= right.current;
+		return !(left < right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, regex_end_iterator) noexcept {
 		return !bool(left.current_match);
@@ -5577,22 +5590,24 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		// the last piece can be an empty one after a separator, and there is nothing after it
+		return left.current == right.current && left.last_match == right.last_match && bool(left.current_match) == bool(right.current_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current < right.current;
+		if (!left.current_match || !right.current_match) return bool(left.current_match) && !right.current_match;
+		return left.current < right.current || (left.current == right.current && !left.last_match && right.last_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current > right.current;
+		return right < left;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current <= right.current;
+		return !(right < left);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator>=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current >= right.current;
+		return !(left < right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, regex_end_iterator) noexcept {
 		return !bool(left.current_match);
-- 
2.43.0


From 5a27af41f80ddac778723bdbe177d7a51c0b44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 48/65] fix: quick LL(1) rules of a parser over a fixed_string
 didn't compile in C++17 nor with clang

---
 include/ctll/parser.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ctll/parser.hpp b/include/ctll/parser.hpp
index d3751f9..759ed9b 100644
--- a/include/ctll/parser.hpp
+++ b/include/ctll/parser.hpp
@@ -132,15 +132,13 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, typename Stack, typename Subject>
 	static constexpr auto move(push<term<V>, Content...>, term<V>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// if rule is string with any character at the beginning (compatible with current term<T>) => move to next character 
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, auto T, typename Stack, typename Subject>
 	static constexpr auto move(push<anything, Content...>, term<T>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// decide if we need to take action or move
 	template <size_t Pos, typename Stack, typename Subject> static constexpr auto decide(Stack previous_stack, Subject previous_subject) noexcept {
-- 
2.43.0


From b58535de2c2e68e15486e1952d4086779fc0d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 49/65] fix: single headers contain the fix of quick LL(1)
 rules

---
 single-header/ctre-unicode.hpp | 6 ++----
 single-header/ctre.hpp         | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 1692694..5d42e39 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -909,15 +909,13 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, typename Stack, typename Subject>
 	static constexpr auto move(push<term<V>, Content...>, term<V>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// if rule is string with any character at the beginning (compatible with current term<T>) => move to next character 
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, auto T, typename Stack, typename Subject>
 	static constexpr auto move(push<anything, Content...>, term<T>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// decide if we need to take action or move
 	template <size_t Pos, typename Stack, typename Subject> static constexpr auto decide(Stack previous_stack, Subject previous_subject) noexcept {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index fed9761..f14f9dc 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -906,15 +906,13 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, typename Stack, typename Subject>
 	static constexpr auto move(push<term<V>, Content...>, term<V>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// if rule is string with any character at the beginning (compatible with current term<T>) => move to next character 
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, auto T, typename Stack, typename Subject>
 	static constexpr auto move(push<anything, Content...>, term<T>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// decide if we need to take action or move
 	template <size_t Pos, typename Stack, typename Subject> static constexpr auto decide(Stack previous_stack, Subject previous_subject) noexcept {
-- 
2.43.0


From d59571d0030b63a5dff67c1da9f24edd58ef8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 50/65] fix: groups of the right operand of | and >> collided
 with groups of the left one

---
 include/ctre/operators.hpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/ctre/operators.hpp b/include/ctre/operators.hpp
index ee2652c..3d6fb64 100644
--- a/include/ctre/operators.hpp
+++ b/include/ctre/operators.hpp
@@ -1,11 +1,42 @@
 #ifndef CTRE_V2__CTRE__OPERATORS__HPP
 #define CTRE_V2__CTRE__OPERATORS__HPP
 
-template <typename A, typename B> constexpr auto operator|(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::select<A,B>> {
+#include "find_captures.hpp"
+
+namespace ctre {
+
+// groups of the right operand are numbered behind the groups of the left one
+template <size_t Offset, typename T> struct shift_groups { using type = T; };
+
+template <size_t Offset, template <typename...> class Type, typename... Content> struct shift_groups<Offset, Type<Content...>> {
+	using type = Type<typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, template <size_t, size_t, typename...> class CycleType, size_t A, size_t B, typename... Content> struct shift_groups<Offset, CycleType<A,B,Content...>> {
+	using type = CycleType<A,B,typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index, typename... Content> struct shift_groups<Offset, capture<Index, Content...>> {
+	using type = capture<Index + Offset, typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index, typename Name, typename... Content> struct shift_groups<Offset, capture_with_name<Index, Name, Content...>> {
+	using type = capture_with_name<Index + Offset, Name, typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index> struct shift_groups<Offset, back_reference<Index>> {
+	using type = back_reference<Index + Offset>;
+};
+
+template <typename A, typename B> using groups_behind = typename shift_groups<ctll::size(decltype(find_captures(A{})){}), B>::type;
+
+}
+
+template <typename A, typename B> constexpr auto operator|(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::select<A,ctre::groups_behind<A,B>>> {
 	return {};
 }
 
-template <typename A, typename B> constexpr auto operator>>(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::sequence<A,B>> {
+template <typename A, typename B> constexpr auto operator>>(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::sequence<A,ctre::groups_behind<A,B>>> {
 	return {};
 }
 
-- 
2.43.0


From 945912ce61bf4bfe5a1a1a6004be694c36266cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 51/65] fix: single headers contain the fix of combined groups

---
 single-header/ctre-unicode.hpp | 34 ++++++++++++++++++++++++++++++++--
 single-header/ctre.hpp         | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 5d42e39..00245d5 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -6314,11 +6314,41 @@ constexpr auto & _input = input;
 #ifndef CTRE_V2__CTRE__OPERATORS__HPP
 #define CTRE_V2__CTRE__OPERATORS__HPP
 
-template <typename A, typename B> constexpr auto operator|(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::select<A,B>> {
+
+namespace ctre {
+
+// groups of the right operand are numbered behind the groups of the left one
+template <size_t Offset, typename T> struct shift_groups { using type = T; };
+
+template <size_t Offset, template <typename...> class Type, typename... Content> struct shift_groups<Offset, Type<Content...>> {
+	using type = Type<typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, template <size_t, size_t, typename...> class CycleType, size_t A, size_t B, typename... Content> struct shift_groups<Offset, CycleType<A,B,Content...>> {
+	using type = CycleType<A,B,typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index, typename... Content> struct shift_groups<Offset, capture<Index, Content...>> {
+	using type = capture<Index + Offset, typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index, typename Name, typename... Content> struct shift_groups<Offset, capture_with_name<Index, Name, Content...>> {
+	using type = capture_with_name<Index + Offset, Name, typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index> struct shift_groups<Offset, back_reference<Index>> {
+	using type = back_reference<Index + Offset>;
+};
+
+template <typename A, typename B> using groups_behind = typename shift_groups<ctll::size(decltype(find_captures(A{})){}), B>::type;
+
+}
+
+template <typename A, typename B> constexpr auto operator|(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::select<A,ctre::groups_behind<A,B>>> {
 	return {};
 }
 
-template <typename A, typename B> constexpr auto operator>>(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::sequence<A,B>> {
+template <typename A, typename B> constexpr auto operator>>(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::sequence<A,ctre::groups_behind<A,B>>> {
 	return {};
 }
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index f14f9dc..678685d 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -6311,11 +6311,41 @@ constexpr auto & _input = input;
 #ifndef CTRE_V2__CTRE__OPERATORS__HPP
 #define CTRE_V2__CTRE__OPERATORS__HPP
 
-template <typename A, typename B> constexpr auto operator|(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::select<A,B>> {
+
+namespace ctre {
+
+// groups of the right operand are numbered behind the groups of the left one
+template <size_t Offset, typename T> struct shift_groups { using type = T; };
+
+template <size_t Offset, template <typename...> class Type, typename... Content> struct shift_groups<Offset, Type<Content...>> {
+	using type = Type<typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, template <size_t, size_t, typename...> class CycleType, size_t A, size_t B, typename... Content> struct shift_groups<Offset, CycleType<A,B,Content...>> {
+	using type = CycleType<A,B,typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index, typename... Content> struct shift_groups<Offset, capture<Index, Content...>> {
+	using type = capture<Index + Offset, typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index, typename Name, typename... Content> struct shift_groups<Offset, capture_with_name<Index, Name, Content...>> {
+	using type = capture_with_name<Index + Offset, Name, typename shift_groups<Offset, Content>::type...>;
+};
+
+template <size_t Offset, size_t Index> struct shift_groups<Offset, back_reference<Index>> {
+	using type = back_reference<Index + Offset>;
+};
+
+template <typename A, typename B> using groups_behind = typename shift_groups<ctll::size(decltype(find_captures(A{})){}), B>::type;
+
+}
+
+template <typename A, typename B> constexpr auto operator|(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::select<A,ctre::groups_behind<A,B>>> {
 	return {};
 }
 
-template <typename A, typename B> constexpr auto operator>>(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::sequence<A,B>> {
+template <typename A, typename B> constexpr auto operator>>(ctre::regular_expression<A>, ctre::regular_expression<B>) -> ctre::regular_expression<ctre::sequence<A,ctre::groups_behind<A,B>>> {
 	return {};
 }
 
-- 
2.43.0


From fb0eeaf8e737dbcf9719d29a95454c12c0d8f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 52/65] fix: values beyond U+10FFFF have no Unicode property
 and no block

The trie lookup fell back to the first child page, so U+110000 was a letter
(\p{L} matched it), assigned and in the last block.
---
 include/unicode-db/unicode-db.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 33bfb7b..eab510f 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -252,6 +252,8 @@ struct bool_trie {
                     child = r2[i - r2_t_f];
                 return trie_range_leaf(c, r3[child]);
             }
+        } else if(c > 0x10FFFF) {
+            return false;
         } else {
             if constexpr(r6_s == 0)
                 return false;
@@ -7369,6 +7371,8 @@ constexpr version cp_age(char32_t cp) {
 }
 
 constexpr block cp_block(char32_t cp) {
+    if(cp > 0x10FFFF)
+        return block::no_block;
     const auto end = std::end(detail::tables::block_data._data);
     auto it = detail::upper_bound(std::begin(detail::tables::block_data._data), end, cp,
                                   [](char32_t cp_, uint32_t v) {
@@ -7389,7 +7393,8 @@ constexpr block cp_block(char32_t cp) {
 
 template<>
 constexpr bool cp_property_is<property::noncharacter_code_point>(char32_t cp) {
-    return (char32_t(cp) & 0xfffe) == 0xfffe || (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
+    return (char32_t(cp) <= 0x10FFFF && (char32_t(cp) & 0xfffe) == 0xfffe) ||
+           (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
 }
 
 // http://unicode.org/reports/tr44/#Lowercase
-- 
2.43.0


From e8ec8c9ef3712b39abb37df00cd68f2cebda8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 53/65] fix: single headers contain the fix of values beyond
 U+10FFFF

---
 single-header/ctre-unicode.hpp | 7 ++++++-
 single-header/unicode-db.hpp   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 00245d5..e0e2fe3 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -6613,6 +6613,8 @@ struct bool_trie {
                     child = r2[i - r2_t_f];
                 return trie_range_leaf(c, r3[child]);
             }
+        } else if(c > 0x10FFFF) {
+            return false;
         } else {
             if constexpr(r6_s == 0)
                 return false;
@@ -13730,6 +13732,8 @@ constexpr version cp_age(char32_t cp) {
 }
 
 constexpr block cp_block(char32_t cp) {
+    if(cp > 0x10FFFF)
+        return block::no_block;
     const auto end = std::end(detail::tables::block_data._data);
     auto it = detail::upper_bound(std::begin(detail::tables::block_data._data), end, cp,
                                   [](char32_t cp_, uint32_t v) {
@@ -13750,7 +13754,8 @@ constexpr block cp_block(char32_t cp) {
 
 template<>
 constexpr bool cp_property_is<property::noncharacter_code_point>(char32_t cp) {
-    return (char32_t(cp) & 0xfffe) == 0xfffe || (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
+    return (char32_t(cp) <= 0x10FFFF && (char32_t(cp) & 0xfffe) == 0xfffe) ||
+           (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
 }
 
 // http://unicode.org/reports/tr44/#Lowercase
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index 33bfb7b..eab510f 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -252,6 +252,8 @@ struct bool_trie {
                     child = r2[i - r2_t_f];
                 return trie_range_leaf(c, r3[child]);
             }
+        } else if(c > 0x10FFFF) {
+            return false;
         } else {
             if constexpr(r6_s == 0)
                 return false;
@@ -7369,6 +7371,8 @@ constexpr version cp_age(char32_t cp) {
 }
 
 constexpr block cp_block(char32_t cp) {
+    if(cp > 0x10FFFF)
+        return block::no_block;
     const auto end = std::end(detail::tables::block_data._data);
     auto it = detail::upper_bound(std::begin(detail::tables::block_data._data), end, cp,
                                   [](char32_t cp_, uint32_t v) {
@@ -7389,7 +7393,8 @@ constexpr block cp_block(char32_t cp) {
 
 template<>
 constexpr bool cp_property_is<property::noncharacter_code_point>(char32_t cp) {
-    return (char32_t(cp) & 0xfffe) == 0xfffe || (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
+    return (char32_t(cp) <= 0x10FFFF && (char32_t(cp) & 0xfffe) == 0xfffe) ||
+           (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
 }
 
 // http://unicode.org/reports/tr44/#Lowercase
-- 
2.43.0


From 5b8aa1ee4cf26c0c542c8813755fbfae42a528b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 54/65] fix: adjacent repeats of content which can be empty are
 not merged

Mandatory cycles can be empty and optional ones can't, so (?:^|b){1,2}(?:^|b){1,2}
merged to (?:^|b){2,4} could take two characters only and rejected bbb.
---
 include/ctre/actions/fusion.inc.hpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index 1a2f6d1..d09b1b7 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -6,12 +6,33 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// content which can match nothing: its mandatory cycles can be empty and the others can't, so the cycles can't be counted together
+template <typename T> static constexpr bool can_be_empty(T) { return !MatchesCharacter<T>::template value<char>; }
+static constexpr bool can_be_empty(any) { return false; }
+template <auto... Str> static constexpr bool can_be_empty(string<Str...>) { return sizeof...(Str) == 0; }
+template <typename... Content> static constexpr bool can_be_empty(sequence<Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <typename... Options> static constexpr bool can_be_empty(select<Options...>) { return (can_be_empty(Options{}) || ... || false); }
+template <size_t Index, typename... Content> static constexpr bool can_be_empty(capture<Index, Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <size_t Index, typename Name, typename... Content> static constexpr bool can_be_empty(capture_with_name<Index, Name, Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <typename... Content> static constexpr bool can_be_empty(atomic_group<Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(lazy_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(possessive_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
+	} else {
+		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
+	} else {
+		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>) {
@@ -19,7 +40,9 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (second_is_nonempty && can_be_empty(sequence<Content...>{})) {
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
-- 
2.43.0


From b612737805e49d21f37cc4a34673276d94d43e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 55/65] fix: single headers contain the fix of merged repeats

---
 single-header/ctre-unicode.hpp | 29 ++++++++++++++++++++++++++---
 single-header/ctre.hpp         | 29 ++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index e0e2fe3..84122b4 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2448,12 +2448,33 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// content which can match nothing: its mandatory cycles can be empty and the others can't, so the cycles can't be counted together
+template <typename T> static constexpr bool can_be_empty(T) { return !MatchesCharacter<T>::template value<char>; }
+static constexpr bool can_be_empty(any) { return false; }
+template <auto... Str> static constexpr bool can_be_empty(string<Str...>) { return sizeof...(Str) == 0; }
+template <typename... Content> static constexpr bool can_be_empty(sequence<Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <typename... Options> static constexpr bool can_be_empty(select<Options...>) { return (can_be_empty(Options{}) || ... || false); }
+template <size_t Index, typename... Content> static constexpr bool can_be_empty(capture<Index, Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <size_t Index, typename Name, typename... Content> static constexpr bool can_be_empty(capture_with_name<Index, Name, Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <typename... Content> static constexpr bool can_be_empty(atomic_group<Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(lazy_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(possessive_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
+	} else {
+		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
+	} else {
+		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>) {
@@ -2461,7 +2482,9 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (second_is_nonempty && can_be_empty(sequence<Content...>{})) {
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 678685d..20c7bc3 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2445,12 +2445,33 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// content which can match nothing: its mandatory cycles can be empty and the others can't, so the cycles can't be counted together
+template <typename T> static constexpr bool can_be_empty(T) { return !MatchesCharacter<T>::template value<char>; }
+static constexpr bool can_be_empty(any) { return false; }
+template <auto... Str> static constexpr bool can_be_empty(string<Str...>) { return sizeof...(Str) == 0; }
+template <typename... Content> static constexpr bool can_be_empty(sequence<Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <typename... Options> static constexpr bool can_be_empty(select<Options...>) { return (can_be_empty(Options{}) || ... || false); }
+template <size_t Index, typename... Content> static constexpr bool can_be_empty(capture<Index, Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <size_t Index, typename Name, typename... Content> static constexpr bool can_be_empty(capture_with_name<Index, Name, Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <typename... Content> static constexpr bool can_be_empty(atomic_group<Content...>) { return (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(lazy_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(possessive_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
+
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
+	} else {
+		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
+	} else {
+		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>) {
@@ -2458,7 +2479,9 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (second_is_nonempty && can_be_empty(sequence<Content...>{})) {
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
-- 
2.43.0


From 5e7f5784cbdb305152cf09b4434dc57894d4fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:45 +0000
Subject: [PATCH 56/65] fix: a possessive optional of a lazy optional didn't
 compile: (?:a??)?+

---
 include/ctre/actions/options.inc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/options.inc.hpp b/include/ctre/actions/options.inc.hpp
index 93ef48a..25e9674 100644
--- a/include/ctre/actions/options.inc.hpp
+++ b/include/ctre/actions/options.inc.hpp
@@ -50,6 +50,9 @@ template <auto V, typename... Subject, typename... Ts, typename Parameters> stat
 	return pcre_context{ctll::push_front(lazy_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
-
+// an optional of a lazy optional became a lazy optional, but a possessive one isn't lazy
+template <auto V, typename... Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_possessive, ctll::term<V>, pcre_context<ctll::list<lazy_optional<Subject...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(possessive_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
+}
 
 #endif
-- 
2.43.0


From b55700348d35a40b723ba930878855e9698d2894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 57/65] fix: single headers contain the fix of the possessive
 optional

---
 single-header/ctre-unicode.hpp | 5 +++++
 single-header/ctre.hpp         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 84122b4..06886e9 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2746,6 +2746,11 @@ template <auto V, typename... Subject, typename... Ts, typename Parameters> stat
 	return pcre_context{ctll::push_front(lazy_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// an optional of a lazy optional became a lazy optional, but a possessive one isn't lazy
+template <auto V, typename... Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_possessive, ctll::term<V>, pcre_context<ctll::list<lazy_optional<Subject...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(possessive_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 #endif
 
 #ifndef CTRE__ACTIONS__PROPERTIES__HPP
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 20c7bc3..a314b02 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2743,6 +2743,11 @@ template <auto V, typename... Subject, typename... Ts, typename Parameters> stat
 	return pcre_context{ctll::push_front(lazy_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// an optional of a lazy optional became a lazy optional, but a possessive one isn't lazy
+template <auto V, typename... Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_possessive, ctll::term<V>, pcre_context<ctll::list<lazy_optional<Subject...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(possessive_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 #endif
 
 #ifndef CTRE__ACTIONS__PROPERTIES__HPP
-- 
2.43.0


From f3b8d30f590c93792cfa3f4f1c67c8858af8ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:55 +0000
Subject: [PATCH 58/65] fix: numbers in a pattern which don't fit are rejected,
 they wrapped around

a{18446744073709551617} was a{1}, \g{18446744073709551617} was \g{1} and
\x{10000000000000041} was A.
---
 include/ctre/actions/hexdec.inc.hpp | 5 ++++-
 include/ctre/actions/repeat.inc.hpp | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/hexdec.inc.hpp b/include/ctre/actions/hexdec.inc.hpp
index ae30b6e..8c7b1b4 100644
--- a/include/ctre/actions/hexdec.inc.hpp
+++ b/include/ctre/actions/hexdec.inc.hpp
@@ -8,7 +8,10 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 // hexdec character support (push value)
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_hexdec, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
 	constexpr auto previous = N << 4ull;	
-	if constexpr (V >= 'a' && V <= 'f') {
+	// a number which doesn't fit ... reject input during parsing
+	if constexpr (N > ((std::numeric_limits<uint32_t>::max)() >> 4u)) {
+		return ctll::reject{};
+	} else if constexpr (V >= 'a' && V <= 'f') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'a' + 10))>(), ctll::list<Ts...>()), subject.parameters};
 	} else if constexpr (V >= 'A' && V <= 'F') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'A' + 10))>(), ctll::list<Ts...>()), subject.parameters};
diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 979756a..f3eed0c 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -25,8 +25,13 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // push_number
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_number, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
-	constexpr size_t previous = N * 10ull;	
-	return pcre_context{ctll::push_front(number<(previous + (V - '0'))>(), ctll::list<Ts...>()), subject.parameters};
+	constexpr size_t digit = static_cast<size_t>(V - '0');
+	// a number which doesn't fit ... reject input during parsing
+	if constexpr (N > ((std::numeric_limits<size_t>::max)() - digit) / 10u) {
+		return ctll::reject{};
+	} else {
+		return pcre_context{ctll::push_front(number<(N * 10u + digit)>(), ctll::list<Ts...>()), subject.parameters};
+	}
 }
 
 // repeat A..B
-- 
2.43.0


From add787809975ef9c892172079ccd3495ec718451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 59/65] Single headers: numbers which don't fit are rejected

---
 single-header/ctre-unicode.hpp | 14 +++++++++++---
 single-header/ctre.hpp         | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 06886e9..6715c90 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2544,7 +2544,10 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 // hexdec character support (push value)
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_hexdec, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
 	constexpr auto previous = N << 4ull;	
-	if constexpr (V >= 'a' && V <= 'f') {
+	// a number which doesn't fit ... reject input during parsing
+	if constexpr (N > ((std::numeric_limits<uint32_t>::max)() >> 4u)) {
+		return ctll::reject{};
+	} else if constexpr (V >= 'a' && V <= 'f') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'a' + 10))>(), ctll::list<Ts...>()), subject.parameters};
 	} else if constexpr (V >= 'A' && V <= 'F') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'A' + 10))>(), ctll::list<Ts...>()), subject.parameters};
@@ -2853,8 +2856,13 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // push_number
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_number, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
-	constexpr size_t previous = N * 10ull;	
-	return pcre_context{ctll::push_front(number<(previous + (V - '0'))>(), ctll::list<Ts...>()), subject.parameters};
+	constexpr size_t digit = static_cast<size_t>(V - '0');
+	// a number which doesn't fit ... reject input during parsing
+	if constexpr (N > ((std::numeric_limits<size_t>::max)() - digit) / 10u) {
+		return ctll::reject{};
+	} else {
+		return pcre_context{ctll::push_front(number<(N * 10u + digit)>(), ctll::list<Ts...>()), subject.parameters};
+	}
 }
 
 // repeat A..B
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index a314b02..70ed63a 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2541,7 +2541,10 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 // hexdec character support (push value)
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_hexdec, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
 	constexpr auto previous = N << 4ull;	
-	if constexpr (V >= 'a' && V <= 'f') {
+	// a number which doesn't fit ... reject input during parsing
+	if constexpr (N > ((std::numeric_limits<uint32_t>::max)() >> 4u)) {
+		return ctll::reject{};
+	} else if constexpr (V >= 'a' && V <= 'f') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'a' + 10))>(), ctll::list<Ts...>()), subject.parameters};
 	} else if constexpr (V >= 'A' && V <= 'F') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'A' + 10))>(), ctll::list<Ts...>()), subject.parameters};
@@ -2850,8 +2853,13 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // push_number
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_number, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
-	constexpr size_t previous = N * 10ull;	
-	return pcre_context{ctll::push_front(number<(previous + (V - '0'))>(), ctll::list<Ts...>()), subject.parameters};
+	constexpr size_t digit = static_cast<size_t>(V - '0');
+	// a number which doesn't fit ... reject input during parsing
+	if constexpr (N > ((std::numeric_limits<size_t>::max)() - digit) / 10u) {
+		return ctll::reject{};
+	} else {
+		return pcre_context{ctll::push_front(number<(N * 10u + digit)>(), ctll::list<Ts...>()), subject.parameters};
+	}
 }
 
 // repeat A..B
-- 
2.43.0


From ca1a34722e07c738df17fa58e95078fd752c6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:38 +0000
Subject: [PATCH 60/65] fix: repeats which can't be satisfied are not merged

a{3,2} matches nothing, but a{3,2}a{1,5} was merged to a{4,7} and
matched aaaaa.
---
 include/ctre/actions/fusion.inc.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index d09b1b7..f52fa0d 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -6,6 +6,12 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// a repeat which can't be satisfied (a{3,2}) must stay as it is, and the bounds must not wrap around
+template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB> static constexpr bool can_combine_bounds() {
+	constexpr size_t limit = (std::numeric_limits<size_t>::max)() / 2;
+	return (MaxA == 0 || MinA <= MaxA) && (MaxB == 0 || MinB <= MaxB) && MinA <= limit && MinB <= limit && MaxA <= limit && MaxB <= limit;
+}
+
 // content which can match nothing: its mandatory cycles can be empty and the others can't, so the cycles can't be counted together
 template <typename T> static constexpr bool can_be_empty(T) { return !MatchesCharacter<T>::template value<char>; }
 static constexpr bool can_be_empty(any) { return false; }
@@ -20,7 +26,7 @@ template <size_t A, size_t B, typename... Content> static constexpr bool can_be_
 template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(possessive_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (MinB > 0 && can_be_empty(sequence<Content...>{}))) {
 		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
 	} else {
 		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
@@ -28,7 +34,7 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (MinB > 0 && can_be_empty(sequence<Content...>{}))) {
 		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
 	} else {
 		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
@@ -40,7 +46,7 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (second_is_nonempty && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (second_is_nonempty && can_be_empty(sequence<Content...>{}))) {
 		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
 	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
-- 
2.43.0


From b2cc964ee4fe53e686b158e195e9c989185b992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:38 +0000
Subject: [PATCH 61/65] Single headers: repeats which can't be satisfied are
 not merged

---
 single-header/ctre-unicode.hpp | 12 +++++++++---
 single-header/ctre.hpp         | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 6715c90..78dd710 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2448,6 +2448,12 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// a repeat which can't be satisfied (a{3,2}) must stay as it is, and the bounds must not wrap around
+template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB> static constexpr bool can_combine_bounds() {
+	constexpr size_t limit = (std::numeric_limits<size_t>::max)() / 2;
+	return (MaxA == 0 || MinA <= MaxA) && (MaxB == 0 || MinB <= MaxB) && MinA <= limit && MinB <= limit && MaxA <= limit && MaxB <= limit;
+}
+
 // content which can match nothing: its mandatory cycles can be empty and the others can't, so the cycles can't be counted together
 template <typename T> static constexpr bool can_be_empty(T) { return !MatchesCharacter<T>::template value<char>; }
 static constexpr bool can_be_empty(any) { return false; }
@@ -2462,7 +2468,7 @@ template <size_t A, size_t B, typename... Content> static constexpr bool can_be_
 template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(possessive_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (MinB > 0 && can_be_empty(sequence<Content...>{}))) {
 		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
 	} else {
 		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
@@ -2470,7 +2476,7 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (MinB > 0 && can_be_empty(sequence<Content...>{}))) {
 		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
 	} else {
 		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
@@ -2482,7 +2488,7 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (second_is_nonempty && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (second_is_nonempty && can_be_empty(sequence<Content...>{}))) {
 		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
 	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 70ed63a..fe5c478 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2445,6 +2445,12 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// a repeat which can't be satisfied (a{3,2}) must stay as it is, and the bounds must not wrap around
+template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB> static constexpr bool can_combine_bounds() {
+	constexpr size_t limit = (std::numeric_limits<size_t>::max)() / 2;
+	return (MaxA == 0 || MinA <= MaxA) && (MaxB == 0 || MinB <= MaxB) && MinA <= limit && MinB <= limit && MaxA <= limit && MaxB <= limit;
+}
+
 // content which can match nothing: its mandatory cycles can be empty and the others can't, so the cycles can't be counted together
 template <typename T> static constexpr bool can_be_empty(T) { return !MatchesCharacter<T>::template value<char>; }
 static constexpr bool can_be_empty(any) { return false; }
@@ -2459,7 +2465,7 @@ template <size_t A, size_t B, typename... Content> static constexpr bool can_be_
 template <size_t A, size_t B, typename... Content> static constexpr bool can_be_empty(possessive_repeat<A, B, Content...>) { return A == 0 || (can_be_empty(Content{}) && ... && true); }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (MinB > 0 && can_be_empty(sequence<Content...>{}))) {
 		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
 	} else {
 		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
@@ -2467,7 +2473,7 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	if constexpr (MinB > 0 && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (MinB > 0 && can_be_empty(sequence<Content...>{}))) {
 		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
 	} else {
 		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
@@ -2479,7 +2485,7 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (second_is_nonempty && can_be_empty(sequence<Content...>{})) {
+	if constexpr (!can_combine_bounds<MinA, MaxA, MinB, MaxB>() || (second_is_nonempty && can_be_empty(sequence<Content...>{}))) {
 		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
 	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
-- 
2.43.0


From 9c747dccc1779c3b61946c237231c7109096b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:45 +0000
Subject: [PATCH 62/65] fix: \Z in a lookbehind

A lookbehind walks backwards with the atoms reversed, where \Z was left as it is
and tested the wrong side: a(?<=a\Z) did not match "a" and (?<=\Za)
accepted any position. It has its own mirrored assertion now, as $ and ^ have.
---
 include/ctre/atoms.hpp      |  1 +
 include/ctre/evaluation.hpp | 15 +++++++++++++++
 include/ctre/first.hpp      |  5 +++++
 include/ctre/rotate.hpp     |  3 ++-
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/ctre/atoms.hpp b/include/ctre/atoms.hpp
index f1d8b34..191a87b 100644
--- a/include/ctre/atoms.hpp
+++ b/include/ctre/atoms.hpp
@@ -70,6 +70,7 @@ using not_word_boundary = not_boundary<word_chars>;
 struct assert_subject_begin { };
 struct assert_subject_end { };
 struct assert_subject_end_line{ };
+struct assert_subject_begin_line{ }; // subject_end_line inside lookbehind
 struct assert_line_begin { };
 struct assert_line_end { };
 
diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 5e3c971..caa196e 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -229,6 +229,21 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 }
 
+// the end of the subject in lookbehind, which is evaluated in the other direction
+template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
+constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_subject_begin_line, Tail...>) noexcept {
+	if (begin == current) {
+		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
+	}
+	if (multiline_mode(f)) {
+		const Iterator previous = previous_position(begin, current);
+		if (*previous == '\n' && begin == previous) {
+			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
+		}
+	}
+	return not_matched;
+}
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_line_begin, Tail...>) noexcept {
 	if (multiline_mode(f)) {
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 4843937..8211e1b 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -104,6 +104,11 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line,
 	return ctll::list<Content..., can_be_line_end>{};
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin_line, Tail...>) noexcept {
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
+}
+
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
 	// FIXME line begin is a bit different than subject begin
diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index d0f0db6..c2f9705 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -99,7 +99,8 @@ template <typename... Content> static auto rotate(not_boundary<Content...>) -> n
 // and begin is now end
 static auto rotate(assert_subject_begin) -> assert_subject_end;
 static auto rotate(assert_subject_end) -> assert_subject_begin;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
+static auto rotate(assert_subject_end_line) -> assert_subject_begin_line;
+static auto rotate(assert_subject_begin_line) -> assert_subject_end_line;
 static auto rotate(assert_line_begin) -> assert_line_end;
 static auto rotate(assert_line_end) -> assert_line_begin;
 
-- 
2.43.0


From 7ba9e0063b51bb4955dc9ecb353a5dc93d6fd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:52 +0000
Subject: [PATCH 63/65] Single headers: \Z in a lookbehind

---
 single-header/ctre-unicode.hpp | 24 +++++++++++++++++++++++-
 single-header/ctre.hpp         | 24 +++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 78dd710..9c147c0 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1786,6 +1786,7 @@ using not_word_boundary = not_boundary<word_chars>;
 struct assert_subject_begin { };
 struct assert_subject_end { };
 struct assert_subject_end_line{ };
+struct assert_subject_begin_line{ }; // subject_end_line inside lookbehind
 struct assert_line_begin { };
 struct assert_line_end { };
 
@@ -2144,7 +2145,8 @@ template <typename... Content> static auto rotate(not_boundary<Content...>) -> n
 // and begin is now end
 static auto rotate(assert_subject_begin) -> assert_subject_end;
 static auto rotate(assert_subject_end) -> assert_subject_begin;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
+static auto rotate(assert_subject_end_line) -> assert_subject_begin_line;
+static auto rotate(assert_subject_begin_line) -> assert_subject_end_line;
 static auto rotate(assert_line_begin) -> assert_line_end;
 static auto rotate(assert_line_end) -> assert_line_begin;
 
@@ -4290,6 +4292,11 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line,
 	return ctll::list<Content..., can_be_line_end>{};
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin_line, Tail...>) noexcept {
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
+}
+
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
 	// FIXME line begin is a bit different than subject begin
@@ -5022,6 +5029,21 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 }
 
+// the end of the subject in lookbehind, which is evaluated in the other direction
+template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
+constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_subject_begin_line, Tail...>) noexcept {
+	if (begin == current) {
+		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
+	}
+	if (multiline_mode(f)) {
+		const Iterator previous = previous_position(begin, current);
+		if (*previous == '\n' && begin == previous) {
+			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
+		}
+	}
+	return not_matched;
+}
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_line_begin, Tail...>) noexcept {
 	if (multiline_mode(f)) {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index fe5c478..e54dcd3 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1783,6 +1783,7 @@ using not_word_boundary = not_boundary<word_chars>;
 struct assert_subject_begin { };
 struct assert_subject_end { };
 struct assert_subject_end_line{ };
+struct assert_subject_begin_line{ }; // subject_end_line inside lookbehind
 struct assert_line_begin { };
 struct assert_line_end { };
 
@@ -2141,7 +2142,8 @@ template <typename... Content> static auto rotate(not_boundary<Content...>) -> n
 // and begin is now end
 static auto rotate(assert_subject_begin) -> assert_subject_end;
 static auto rotate(assert_subject_end) -> assert_subject_begin;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
+static auto rotate(assert_subject_end_line) -> assert_subject_begin_line;
+static auto rotate(assert_subject_begin_line) -> assert_subject_end_line;
 static auto rotate(assert_line_begin) -> assert_line_end;
 static auto rotate(assert_line_end) -> assert_line_begin;
 
@@ -4287,6 +4289,11 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line,
 	return ctll::list<Content..., can_be_line_end>{};
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin_line, Tail...>) noexcept {
+	return first_after_assert(l, first(ctll::list<>{}, ctll::list<Tail...>{}));
+}
+
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
 	// FIXME line begin is a bit different than subject begin
@@ -5019,6 +5026,21 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 }
 
+// the end of the subject in lookbehind, which is evaluated in the other direction
+template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
+constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_subject_begin_line, Tail...>) noexcept {
+	if (begin == current) {
+		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
+	}
+	if (multiline_mode(f)) {
+		const Iterator previous = previous_position(begin, current);
+		if (*previous == '\n' && begin == previous) {
+			return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
+		}
+	}
+	return not_matched;
+}
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_line_begin, Tail...>) noexcept {
 	if (multiline_mode(f)) {
-- 
2.43.0


From dad37938e0ee9ce3644776c8c6fe04070d726b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:52 +0000
Subject: [PATCH 64/65] fix: a reference inside of its own group sees the
 previous iteration

Entering a group overwrote one end of its capture, so until the group was closed
again a reference in it saw a range which was never captured:
(?:(a|b\1)c)+ did not match "acbac" whole.
---
 include/ctre/return_type.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index 84ac9fa..c8a0655 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -42,6 +42,9 @@ template <size_t Id, typename Name = void> struct captured_content {
 		Iterator _begin{};
 		Iterator _end{};
 		
+		// where the currently open group was entered, until it's closed the capture keeps its previous value (a reference inside of the group can ask for it)
+		Iterator _opened{};
+		
 		bool _matched{false};
 	public:
 		using char_type = typename std::iterator_traits<Iterator>::value_type;
@@ -76,6 +79,19 @@ template <size_t Id, typename Name = void> struct captured_content {
 		constexpr CTRE_FORCE_INLINE Iterator get_end() const noexcept {
 			return _end;
 		}
+		constexpr CTRE_FORCE_INLINE void open(Iterator pos) noexcept {
+			_opened = pos;
+		}
+		constexpr CTRE_FORCE_INLINE void close_at_end(Iterator pos) noexcept {
+			_begin = _opened;
+			_end = pos;
+			_matched = true;
+		}
+		constexpr CTRE_FORCE_INLINE void close_at_begin(Iterator pos) noexcept {
+			_begin = pos;
+			_end = _opened;
+			_matched = true;
+		}
 		
 	
 		constexpr auto begin() const noexcept {
@@ -522,20 +538,19 @@ public:
 		return _captures.template select<0>().get_end();
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos).matched();
+		_captures.template select<Id>().close_at_end(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture_from_end(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture_at_begin(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
-		_captures.template select<Id>().matched();
+		_captures.template select<Id>().close_at_begin(pos);
 		return *this;
 	}
 	constexpr auto begin() const noexcept {
-- 
2.43.0


From ffd85ad8a2fdb7aa75cc268af42e66bf3c357eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:52 +0000
Subject: [PATCH 65/65] Single headers: a reference inside of its own group

---
 single-header/ctre-unicode.hpp | 25 ++++++++++++++++++++-----
 single-header/ctre.hpp         | 25 ++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 9c147c0..2d8a954 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3500,6 +3500,9 @@ template <size_t Id, typename Name = void> struct captured_content {
 		Iterator _begin{};
 		Iterator _end{};
 		
+		// where the currently open group was entered, until it's closed the capture keeps its previous value (a reference inside of the group can ask for it)
+		Iterator _opened{};
+		
 		bool _matched{false};
 	public:
 		using char_type = typename std::iterator_traits<Iterator>::value_type;
@@ -3534,6 +3537,19 @@ template <size_t Id, typename Name = void> struct captured_content {
 		constexpr CTRE_FORCE_INLINE Iterator get_end() const noexcept {
 			return _end;
 		}
+		constexpr CTRE_FORCE_INLINE void open(Iterator pos) noexcept {
+			_opened = pos;
+		}
+		constexpr CTRE_FORCE_INLINE void close_at_end(Iterator pos) noexcept {
+			_begin = _opened;
+			_end = pos;
+			_matched = true;
+		}
+		constexpr CTRE_FORCE_INLINE void close_at_begin(Iterator pos) noexcept {
+			_begin = pos;
+			_end = _opened;
+			_matched = true;
+		}
 		
 	
 		constexpr auto begin() const noexcept {
@@ -3980,20 +3996,19 @@ public:
 		return _captures.template select<0>().get_end();
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos).matched();
+		_captures.template select<Id>().close_at_end(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture_from_end(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture_at_begin(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
-		_captures.template select<Id>().matched();
+		_captures.template select<Id>().close_at_begin(pos);
 		return *this;
 	}
 	constexpr auto begin() const noexcept {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index e54dcd3..8d7b142 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3497,6 +3497,9 @@ template <size_t Id, typename Name = void> struct captured_content {
 		Iterator _begin{};
 		Iterator _end{};
 		
+		// where the currently open group was entered, until it's closed the capture keeps its previous value (a reference inside of the group can ask for it)
+		Iterator _opened{};
+		
 		bool _matched{false};
 	public:
 		using char_type = typename std::iterator_traits<Iterator>::value_type;
@@ -3531,6 +3534,19 @@ template <size_t Id, typename Name = void> struct captured_content {
 		constexpr CTRE_FORCE_INLINE Iterator get_end() const noexcept {
 			return _end;
 		}
+		constexpr CTRE_FORCE_INLINE void open(Iterator pos) noexcept {
+			_opened = pos;
+		}
+		constexpr CTRE_FORCE_INLINE void close_at_end(Iterator pos) noexcept {
+			_begin = _opened;
+			_end = pos;
+			_matched = true;
+		}
+		constexpr CTRE_FORCE_INLINE void close_at_begin(Iterator pos) noexcept {
+			_begin = pos;
+			_end = _opened;
+			_matched = true;
+		}
 		
 	
 		constexpr auto begin() const noexcept {
@@ -3977,20 +3993,19 @@ public:
 		return _captures.template select<0>().get_end();
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos).matched();
+		_captures.template select<Id>().close_at_end(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture_from_end(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture_at_begin(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
-		_captures.template select<Id>().matched();
+		_captures.template select<Id>().close_at_begin(pos);
 		return *this;
 	}
 	constexpr auto begin() const noexcept {
-- 
2.43.0

