// Monitor for memory safety: every operation on subjects in exactly sized buffers (address and undefined behaviour
// sanitizers watch), checking containers and checking iterators; every accessor of every result is used.
#pragma once
#include "mon.hpp"
#include "counting.hpp"
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
namespace mon {
struct Seen {
	long runs = 0, results = 0, accessors = 0, unset = 0, failed = 0; uint64_t sum = 0;
	const char * trouble = nullptr;
};
inline Seen seen;
inline void wrong(const char * what) { if (!seen.trouble) seen.trouble = what; }
template <typename T> inline void use(const T & v) { seen.accessors++; if constexpr (std::is_floating_point_v<T>) seen.sum += v > 0; else seen.sum = seen.sum * 31 + uint64_t(v); }

// everything that can be asked of a capture; Lo..Hi: where the subject's units are (contiguous subjects)
template <bool Contiguous, typename C> void touch_one(const C & c, const void * lo, const void * hi, size_t total) {
	bool set = bool(c);
	use(set);
	if (!set) seen.unset++;
	size_t n = c.size(); use(n);
	size_t u = c.unit_size(); use(u);
	if (n > total || u > total) wrong("size of a capture is larger than the subject");
	auto s = c.str(); use(s.size()); for (auto ch: s) use((unsigned long)ch);
	if (s.size() > total) wrong("string of a capture is longer than the subject");
	auto s2 = c.to_string(); use(s2 == s);
	auto os = c.to_optional_string(); use(bool(os)); if (bool(os) != set) wrong("optional string disagrees with bool");
	using S = decltype(s);
	for (auto it = c.begin(); it != c.end(); ++it) use((unsigned long)*it);
	if constexpr (Contiguous) {
		S s3 = static_cast<S>(c); use(s3.size());
		auto v = c.view(); for (auto ch: v) use((unsigned long)ch);
		auto v2 = c.to_view(); use(v2 == v);
		auto d = c.data(); use(d != nullptr);
		if (set && (static_cast<const void *>(v.data()) < lo || static_cast<const void *>(v.data() + v.size()) > hi)) wrong("capture leaves the subject");
		if (set && static_cast<const void *>(d) != static_cast<const void *>(v.data())) wrong("data of a capture is not its view's");
		if (!set && !v.empty()) wrong("view of an unset capture is not empty");
		auto ov = c.to_optional_view(); use(bool(ov)); if (bool(ov) != set) wrong("optional view disagrees with bool");
		std::basic_string_view<typename S::value_type> v4 = c; use(v4.size());
		use(c == v); use(c != v); use(v == c); use(v != c);
		if constexpr (std::is_same_v<typename S::value_type, char>) {
			use(c.to_number()); use(c.template to_number<long long>(16)); use(bool(c.to_optional_number())); use(c.template to_number<double>());
			std::ostringstream o; o << c; use(o.str().size());
		}
	} else if (!set && !s.empty()) wrong("string of an unset capture is not empty");
}
template <bool Contiguous, typename R, size_t... I> void touch(const R & r, const void * lo, const void * hi, size_t total, std::index_sequence<I...>) {
	seen.results++;
	if (!r) seen.failed++;
	touch_one<Contiguous>(r.template get<0>(), lo, hi, total);
	(touch_one<Contiguous>(r.template get<I + 1>(), lo, hi, total), ...);
	use(bool(r)); use(r.size()); use(r.str().size()); use(r.to_string().size()); use(bool(r.to_optional_string()));
	for (auto it = r.begin(); it != r.end(); ++it) use((unsigned long)*it);
	if constexpr (Contiguous) { use(r.view().size()); use(r.to_view().size()); use(bool(r.to_optional_view())); use(r == r.view()); use(r != r.view()); use(r.data() != nullptr);
		if constexpr (std::is_same_v<std::decay_t<decltype(*r.view().data())>, char>) { use(r.to_number()); std::ostringstream o; o << r; use(o.str().size()); } }
}
template <bool Contiguous, typename R> void touch(const R & r, const void * lo, const void * hi, size_t total) { touch<Contiguous>(r, lo, hi, total, std::make_index_sequence<R::count() - 1>()); }
template <bool Contiguous, typename R> void touch_all(const R & range, const void * lo, const void * hi, size_t total) {
	long n = 0;
	for (auto it = range.begin(); it != range.end(); ++it) { touch<Contiguous>(*it, lo, hi, total); if (++n > long(2 * total + 4)) { wrong("sequence does not end"); break; } }
}

// an exactly sized copy on the heap
template <typename C> struct Exact {
	C * p; size_t n;
	Exact(const char * b, size_t len, bool zero): n(len) {
		if (zero) { n = 0; while (n < len && b[n]) ++n; }
		p = static_cast<C *>(malloc((n + zero) * sizeof(C)));
		for (size_t i = 0; i < n; ++i) p[i] = C((unsigned char)b[i]);
		if (zero) p[n] = C(0);
		if constexpr (std::is_same_v<C, char32_t>) for (size_t i = 0; i < n; ++i) if (p[i] >= 0x80) p[i] = p[i] * 0x1091u;
	}
	~Exact() { free(p); }
	Exact(const Exact &) = delete;
};
using MemFn = void (*)(const char * b, size_t n);
struct MemEntry { const char * what; MemFn fn; };
struct MemCase { const char * pattern; const char * alphabet; int flags; MemEntry entry[10]; };
}
extern const mon::MemCase mem_cases[];
extern const size_t mem_case_count;
extern mon::Seen & mem_seen();
extern long mem_bad(); // reads and steps outside of the range seen by checking iterators since the last call
