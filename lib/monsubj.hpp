// Monitor for subject representations: the same text in many types; results as offsets.
#pragma once
#include "mon.hpp"
#include "counting.hpp"
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#if __cplusplus >= 202002L
#include <span>
#endif
namespace mon {
using SeqRes = std::vector<Res>;
constexpr int bad_distance = -1000;

// offset of an iterator into the subject; iterators may differ in type from the container's own (pointers, const ones)
template <typename I, typename B> long offset(I it, B first, long total) {
	if constexpr (std::is_same_v<I, B>) {
		if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<I>::iterator_category>) return long(it - first);
		else { long n = 0; while (!(first == it)) { if (n++ > total) return bad_distance; if (n > total) return bad_distance; ++first; } return n; }
	} else if constexpr (std::is_pointer_v<I>) return long(it - &*first);
	else if constexpr (std::is_pointer_v<B>) return long(&*it - first);
	else return long(it - I(first));
}
template <typename R, typename B, size_t... I> Res conv_off(const R & r, B first, long total, std::index_sequence<I...>) {
	Res out; out.ok = bool(r); out.n = int(sizeof...(I));
	auto one = [&](int i, const auto & c) {
		if (out.ok && bool(c)) { out.s[i][0] = int(offset(c.begin(), first, total)); out.s[i][1] = int(offset(c.end(), first, total)); }
		else out.s[i][0] = out.s[i][1] = -1;
	};
	(one(int(I), r.template get<I>()), ...);
	return out;
}
template <typename R, typename B> void grab(SeqRes & out, const R & r, B first, long total) { out.push_back(conv_off(r, first, total, std::make_index_sequence<R::count()>())); }
template <typename R, typename B> void grab_all(SeqRes & out, const R & range, B first, long total) { for (auto && m: range) { grab(out, m, first, total); if (long(out.size()) > 2 * total + 4) break; } }

// user defined string-like types
struct MyText { std::string s; const char * begin() const { return s.data(); } const char * end() const { return s.data() + s.size(); } };
struct MyMutable { std::vector<char> s; auto begin() { return s.begin(); } auto end() { return s.end(); } auto begin() const { return s.begin(); } auto end() const { return s.end(); } };
struct MySentinel { std::string s; using It = Counting<char, std::forward_iterator_tag>; It begin() const { return It{s.data(), s.data(), s.data() + s.size()}; } Stop<char> end() const { return Stop<char>{s.data() + s.size()}; } };
struct Convertible { std::string s; operator std::string_view() const { return s; } };
// dereferences to a value, not to a reference
template <typename Category> struct ByValue {
	using value_type = char; using reference = char; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = Category;
	const char * p = nullptr;
	char operator*() const { return *p; }
	ByValue & operator++() { ++p; return *this; }
	ByValue operator++(int) { auto t = *this; ++p; return t; }
	ByValue & operator--() { --p; return *this; }
	ByValue operator--(int) { auto t = *this; --p; return t; }
	friend bool operator==(ByValue a, ByValue b) { return a.p == b.p; }
	friend bool operator!=(ByValue a, ByValue b) { return a.p != b.p; }
	friend std::ptrdiff_t operator-(ByValue a, ByValue b) { return a.p - b.p; }
	friend ByValue operator+(ByValue a, std::ptrdiff_t n) { a.p += n; return a; }
	friend ByValue operator-(ByValue a, std::ptrdiff_t n) { a.p -= n; return a; }
	ByValue & operator+=(std::ptrdiff_t n) { p += n; return *this; }
	ByValue & operator-=(std::ptrdiff_t n) { p -= n; return *this; }
};
template <typename T> std::basic_string<T> as(const char32_t * b, size_t n) { std::basic_string<T> s; for (size_t i = 0; i < n; ++i) s += T(b[i]); return s; }

using SubjFn = void (*)(SeqRes & out, const char32_t * b, size_t n);
struct SubjEntry { const char * what; SubjFn base, fn; int zero; }; // zero: 1 stops at a zero
struct SubjCase { const char * pattern; const char * alphabet; int flags; SubjEntry entry[8]; };
}
extern const mon::SubjCase subj_cases[];
extern const size_t subj_case_count;
