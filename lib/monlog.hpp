// Log of what a program using the library observes: one line of text per operation and subject.
#pragma once
#include <cstdio>
#include <cstring>
#include <deque>
#include <list>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
namespace mon {
using Row = std::string;
inline void put(Row & o, long n) { o += std::to_string(n); }
template <typename Ch> void put_text(Row & o, const std::basic_string<Ch> & s) { o += '\''; for (auto c: s) { auto v = (unsigned long)(std::make_unsigned_t<std::conditional_t<sizeof(Ch) == 1, char, std::conditional_t<sizeof(Ch) == 2, short, int>>>(c)); if (v >= 32 && v < 127 && v != '\'' && v != '"' && v != '\\') o += char(v); else { char b[16]; snprintf(b, sizeof b, "<%lx>", v); o += b; } } o += '\''; }
template <typename It> constexpr bool is_contig = std::is_pointer_v<It> || std::is_same_v<It, std::string::iterator> || std::is_same_v<It, std::string::const_iterator>;
// everything about one capture
template <typename C, typename B> void put_capture(Row & o, const C & c, B first, long total) {
	using It = std::decay_t<decltype(c.begin())>;
	o += c ? "[" : "-";
	put(o, long(c.size()));
	if (c) {
		if constexpr (std::is_same_v<It, B>) { o += '@'; put(o, long(std::distance(first, c.begin()))); o += ','; put(o, long(std::distance(first, c.end()))); }
		put_text(o, c.to_string());
		if constexpr (is_contig<It>) { put_text(o, std::basic_string<std::decay_t<decltype(*first)>>(c.to_view())); o += c == c.to_view() ? '=' : '!'; }
		if constexpr (is_contig<It> && sizeof(*first) == 1 && std::is_same_v<std::decay_t<decltype(*first)>, char>) {
			auto v = c.to_view();
			if (!v.empty() && v[0] >= '0' && v[0] <= '9') { put(o, long(c.template to_number<int>())); o += 'x'; put(o, long(c.template to_number<short>(16))); }
		}
	}
	auto s = c.to_optional_string(); o += s ? (*s == c.to_string() ? "" : "?") : "~";
	(void)total;
}
template <typename R, typename B, size_t... I> void put_result(Row & o, const R & r, B first, long total, std::index_sequence<I...>) { o += r ? 'Y' : 'N'; (put_capture(o, r.template get<I>(), first, total), ...); }
template <typename R, typename B> void one(Row & o, const R & r, B first, long total) { put_result(o, r, first, total, std::make_index_sequence<R::count()>()); }
template <typename R, typename B> void many(Row & o, const R & range, B first, long total) { long n = 0; for (auto && r: range) { one(o, r, first, total); o += ';'; if (++n > 2 * total + 4) { o += "endless"; break; } } }
template <typename T> std::basic_string<T> text_as(const char32_t * b, size_t n) { std::basic_string<T> s; for (size_t i = 0; i < n; ++i) s += T(b[i]); return s; }
// UTF-8 of code points
template <typename T> std::basic_string<T> utf8_as(const char32_t * b, size_t n) {
	std::basic_string<T> s;
	for (size_t i = 0; i < n; ++i) {
		char32_t c = b[i];
		if (c < 0x80) s += T(c);
		else if (c < 0x800) { s += T(0xC0 | (c >> 6)); s += T(0x80 | (c & 63)); }
		else if (c < 0x10000) { s += T(0xE0 | (c >> 12)); s += T(0x80 | ((c >> 6) & 63)); s += T(0x80 | (c & 63)); }
		else { s += T(0xF0 | (c >> 18)); s += T(0x80 | ((c >> 12) & 63)); s += T(0x80 | ((c >> 6) & 63)); s += T(0x80 | (c & 63)); }
	}
	return s;
}
using LogFn = void (*)(Row & o, const char32_t * b, size_t n);
struct LogEntry { const char * what; LogFn fn; };
struct LogCase { const char * pattern; const char * alphabet; int flags; LogEntry entry[8]; };
}
extern const mon::LogCase log_cases[];
extern const size_t log_case_count;
int other_unit(const char * b, const char * e);
