// Operations on shared subjects, pattern objects, ranges and results, for many threads and for histories of calls.
#pragma once
#include "monlog.hpp"
#include <memory>
#if __cplusplus >= 202002L
#include <span>
#endif
namespace mon {
// one text in several forms; contiguous ones lie in memory that cannot be written
struct Subj { const char * b; size_t n; const char32_t * w; const unsigned char * u; size_t un; const std::list<char> * l; const std::vector<std::string_view> * parts; std::string_view view() const { return {b, n}; } std::u32string_view wide() const { return {w, n}; } };
struct PureEntry { const char * what; void (*prep)(const Subj &, size_t slot); void (*fn)(Row & o, const Subj & s, size_t slot); };
struct PureCase { const char * pattern; const char * alphabet; int flags; PureEntry entry[8]; };
template <typename It> struct Walk { It it; };
// a sequence through a copy of a shared iterator
template <typename R, typename B> void walk(Row & o, R it, B first, long total) { long n = 0; for (; it != ctre::sentinel; ++it) { one(o, *it, first, total); o += ';'; if (++n > 2 * total + 4) break; } }
// two walks of one range in turn, at different speeds
template <typename R, typename B> void interleaved(Row & o, const R & range, B first, long total) {
	auto a = range.begin(), b = range.begin();
	long n = 0;
	while (a != range.end() && n++ < 2 * total + 4) {
		one(o, *a, first, total); o += ';'; ++a;
		if (b != range.end()) { Row x; one(x, *b, first, total); if (n % 3) b++; Row y; one(y, *range.begin(), first, total); o += std::to_string(x.size() + y.size()); }
	}
}
}
extern const mon::PureCase pure_cases[];
extern const size_t pure_case_count;
