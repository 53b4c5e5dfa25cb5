// Monitor for result accessors: everything that can be asked of a result against the subject's text between its iterators.
#pragma once
#include "mon.hpp"
#include "counting.hpp"
#include <array>
#include <charconv>
#include <cstring>
#include <deque>
#include <iterator>
#include <list>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
namespace mon {
struct Acc { long results = 0, captures = 0, set = 0, unset = 0, failed = 0, empty = 0, asked = 0, numbers = 0; char trouble[400] = {}; };
inline Acc acc;
inline const char * acc_where = "";
inline void wrong(const char * what, long id = -1) { if (!acc.trouble[0]) snprintf(acc.trouble, sizeof acc.trouble, "%s: %s (capture %ld)", acc_where, what, id); }
#define ASK(COND, WHAT) do { ++acc.asked; if (!(COND)) wrong(WHAT, id); } while (0)

using std::get; // lets result getters be found by argument
enum Kind { Contiguous, Other };

template <typename N, typename C, typename... A> void number(const C & c, std::string_view text, bool set, long id, A... a) {
	N want{0};
	std::from_chars(text.data(), text.data() + text.size(), want, a...);
	++acc.numbers;
	auto same = [](N x, N y) { return x == y || (x != x && y != y); }; // "nan" is a number for from_chars
	if (set) ASK(same(c.template to_number<N>(a...), want), "to_number is not the standard conversion of the text");
	std::optional<N> o = c.template to_optional_number<N>(a...);
	ASK(o.has_value() == set, "to_optional_number disagrees with bool");
	if (set && o) ASK(*o == want, "to_optional_number is not the standard conversion of the text");
}
template <typename C> void numbers(const C & c, std::string_view text, bool set, long id) {
	number<int>(c, text, set, id); number<int>(c, text, set, id, 16); number<unsigned>(c, text, set, id); number<unsigned char>(c, text, set, id); number<long long>(c, text, set, id); number<unsigned long long>(c, text, set, id, 36);
	number<short>(c, text, set, id, 2); number<double>(c, text, set, id); number<float>(c, text, set, id, std::chars_format::fixed);
	if (set) { int want{0}; std::from_chars(text.data(), text.data() + text.size(), want); ASK(c.to_number() == want, "to_number without a type is not int's"); ASK(c.to_optional_number() == std::optional<int>(want), "to_optional_number without a type is not int's"); }
}
// what captures and whole results share
template <Kind K, typename C, typename Ch> void ask(const C & c, const std::basic_string<Ch> & text, const Ch * at, const Ch * lo, const Ch * hi, bool set, long id) {
	using S = std::basic_string<Ch>; using V = std::basic_string_view<Ch>;
	ASK(bool(c) == set, "bool"); ASK((c ? 1 : 0) == int(set), "condition");
	ASK(c.size() == text.size(), "size");
	ASK(c.str() == text, "str"); ASK(c.to_string() == text, "to_string");
	auto os = c.to_optional_string();
	ASK(os.has_value() == set, "to_optional_string disagrees with bool");
	if (os) ASK(*os == text, "to_optional_string");
	if (K == Contiguous || set) ASK(size_t(std::distance(c.begin(), c.end())) == text.size(), "distance between begin and end"); // (std::distance of value-initialised list iterators crashes)
	{ size_t i = 0; bool same = true; for (auto it = c.begin(); it != c.end() && i < text.size(); ++it, ++i) same = same && *it == text[i]; ASK(same && i == text.size(), "characters between begin and end"); }
	if constexpr (K == Contiguous) {
		V v = c.view(), w = c.to_view();
		ASK(v == V(text), "view"); ASK(w == V(text), "to_view"); ASK(V(c) == V(text), "conversion to a view"); { V u = c; ASK(u == V(text), "implicit conversion to a view"); }
		ASK(static_cast<S>(c) == text, "conversion to a string");
		if (set) {
			ASK(v.data() == at && w.data() == at, "view is not where the match is"); ASK(c.data() == at, "data is not where the match is");
			ASK(v.data() >= lo && v.data() + v.size() <= hi, "view leaves the subject");
		}
		std::optional<V> ov = c.to_optional_view();
		ASK(ov.has_value() == set, "to_optional_view disagrees with bool");
		if (ov) ASK(*ov == V(text) && ov->data() == at, "to_optional_view");
		{ std::optional<V> x = c.operator std::optional<V>(); ASK(x.has_value() == set, "conversion to an optional view disagrees with bool"); if (x) ASK(*x == V(text), "conversion to an optional view"); }
		{ // implicit conversions, of constant and other objects and of temporaries
			C copy = c;
			std::optional<V> x = c, y = copy, z = C(c);
			auto pass = [](std::optional<V> o) { return o; };
			auto give = [](const C & from) -> std::optional<V> { C local = from; return local; };
			std::optional<V> f = pass(copy), h = give(c);
			ASK(x.has_value() == set, "a constant object implicitly converted to an optional view disagrees with bool");
			ASK(y.has_value() == set && f.has_value() == set, "an object implicitly converted to an optional view disagrees with bool");
			ASK(z.has_value() == set, "a temporary implicitly converted to an optional view disagrees with bool");
			ASK(h.has_value() == set, "an object returned as an optional view disagrees with bool");
			if (x && y && z && f && h) ASK(*x == V(text) && *y == V(text) && *z == V(text) && *f == V(text) && *h == V(text), "implicit conversion to an optional view");
		}
		{ std::optional<S> x = c.operator std::optional<S>(); ASK(x.has_value() == set, "conversion to an optional string disagrees with bool"); if (x) ASK(*x == text, "conversion to an optional string"); }
		// comparisons with the same and with other texts
		auto compare = [&](V t) {
			bool same = set && t == V(text);
			ASK((c == t) == same, "== with a text"); ASK((t == c) == same, "text =="); ASK((c != t) == !same, "!= with a text"); ASK((t != c) == !same, "text !=");
		};
		S t = text;
		compare(t); compare(V()); compare(V(lo, size_t(hi - lo)));
		t += Ch('x'); compare(t);
		t.pop_back(); if (!t.empty()) { t.back() = Ch(t.back() ^ 1); compare(t); t.pop_back(); compare(t); }
		if (text.size() > 1) { S z = text; z[0] = Ch(z[0] ^ 0x20); compare(z); compare(V(text).substr(1)); }
		{ S z = text + Ch(0); compare(z); }
		if constexpr (std::is_same_v<Ch, char>) {
			std::ostringstream o; o << c; ASK(o.str() == text, "stream output");
			std::ostringstream l; l.width(int(text.size()) + 3); l.fill('.'); l << std::left << c << "|"; ASK(l.str() == text + "...|", "stream output with a width");
			numbers(c, text, set, id);
		}
	}
}
template <typename R, typename F, size_t... I> void each(const R & r, F f, std::index_sequence<I...>) { (f(std::integral_constant<size_t, I>(), r.template get<I>()), ...); }
template <Kind K, typename R, typename B, typename Ch> void result(const R & r, B first, const std::basic_string<Ch> & subject, const Ch * lo) {
	++acc.results;
	bool ok = bool(r);
	if (!ok) ++acc.failed;
	const Ch * hi = lo + subject.size();
	long id = 0;
	auto span = [&](const auto & c, bool set, size_t & b, size_t & e) {
		b = e = 0;
		if (!set) return true;
		b = size_t(std::distance(first, B(c.begin()))); e = size_t(std::distance(first, B(c.end())));
		return b <= e && e <= subject.size();
	};
	size_t wb, we;
	if (!span(r, ok, wb, we)) { wrong("result leaves the subject"); return; }
	ask<K>(r, subject.substr(wb, we - wb), lo + wb, lo, hi, ok, -1);
	ASK(R::count() == std::tuple_size<R>::value, "count and tuple_size differ");
	each(r, [&](auto index, const auto & c) {
		constexpr size_t I = decltype(index)::value;
		long id = long(I);
		++acc.captures;
		bool set = bool(c);
		ASK(c.get_id() == I, "get_id");
		if (I == 0) ASK(set == ok, "capture 0 disagrees with the result");
		if (set) ++acc.set; else ++acc.unset;
		if (!ok && set && I > 0) { wrong("a failed match has a set group", id); return; }
		size_t b, e;
		if (!span(c, set, b, e)) { wrong("capture leaves the subject", id); return; }
		if (set && b == e) ++acc.empty;
		if (I == 0 && set) ASK(b == wb && e == we, "capture 0 is not the result");
		if constexpr (K == Contiguous) ASK(c.unit_size() == e - b, "unit_size");
		ask<K>(c, subject.substr(b, e - b), lo + b, lo, hi, set, id);
		if constexpr (K == Contiguous) if (set) ASK(c.data_unsafe() == lo + b, "data_unsafe");
		// the other ways to the same capture
		auto g = get<I>(r);
		ASK(bool(g) == set && (!set || (g.begin() == c.begin() && g.end() == c.end())), "get<I>(result)");
		std::tuple_element_t<I, R> t = r.template get<I>();
		ASK(bool(t) == set && (!set || (t.begin() == c.begin() && t.end() == c.end())), "tuple_element");
	}, std::make_index_sequence<R::count()>());
	// copies are the same
	R copy = r, moved = std::move(copy), assigned;
	ASK(!assigned || R::count() == 0, "a fresh result is a match");
	assigned = moved;
	each(assigned, [&](auto index, const auto & c) { constexpr size_t I = decltype(index)::value; auto d = r.template get<I>(); long id = long(I); ASK(bool(c) == bool(d) && (!bool(c) || (c.begin() == d.begin() && c.end() == d.end())), "a copied result differs"); }, std::make_index_sequence<R::count()>());
}
template <typename A, typename C> void agree(const A & a, const C & c, const char * what, long id) { ASK(bool(a) == bool(c) && (!bool(c) || (a.begin() == c.begin() && a.end() == c.end() && a.str() == c.str() && a.get_id() == c.get_id())), what); }
// structured bindings
template <typename R> void bindings(const R & r) {
	auto at = [&](auto index, const auto & c) { agree(c, r.template get<size_t{decltype(index)::value}>(), "structured binding", long(decltype(index)::value)); };
#define IX(I) std::integral_constant<size_t, I>()
	if constexpr (R::count() == 1) { auto [a] = r; at(IX(0), a); }
	if constexpr (R::count() == 2) { auto [a, b] = r; at(IX(0), a); at(IX(1), b); }
	if constexpr (R::count() == 3) { auto [a, b, c] = r; at(IX(0), a); at(IX(1), b); at(IX(2), c); }
	if constexpr (R::count() == 4) { const auto & [a, b, c, d] = r; at(IX(0), a); at(IX(1), b); at(IX(2), c); at(IX(3), d); }
	if constexpr (R::count() == 5) { auto [a, b, c, d, e] = r; at(IX(0), a); at(IX(1), b); at(IX(2), c); at(IX(3), d); at(IX(4), e); }
	if constexpr (R::count() == 6) { auto && [a, b, c, d, e, f] = r; at(IX(0), a); at(IX(1), b); at(IX(2), c); at(IX(3), d); at(IX(4), e); at(IX(5), f); }
}
using AccFn = void (*)(const char32_t * b, size_t n);
struct AccEntry { const char * what; AccFn fn; };
struct AccCase { const char * pattern; const char * alphabet; int flags; AccEntry entry[8]; };
template <typename T> std::basic_string<T> text_as(const char32_t * b, size_t n) { std::basic_string<T> s; for (size_t i = 0; i < n; ++i) s += T(b[i]); return s; }
}
extern const mon::AccCase acc_cases[];
extern const size_t acc_case_count;
extern mon::Acc & acc_state();
