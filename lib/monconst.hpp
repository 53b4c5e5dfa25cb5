// Monitor for constant evaluation: the same operation as a constant expression and at run time, in a given build configuration.
#pragma once
#include <array>
#include <cstddef>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace mon {
struct Row {
	unsigned h = 2166136261u; int n = 0; short v[40] = {};
	constexpr void push(int x) { if (n < 40) v[n] = short(x); ++n; h = (h ^ unsigned(x)) * 16777619u; h ^= h >> 15; }
};
constexpr bool same_row(const Row & a, const Row & b) { if (a.h != b.h || a.n != b.n) return false; for (int i = 0; i < 40; ++i) if (a.v[i] != b.v[i]) return false; return true; }
constexpr size_t const_subjects = 9;
using RowFn = Row (*)(const char32_t * b, size_t n);
using TextFn = void (*)(size_t j, std::u32string & out);
struct ConstCase { const char * pattern; const char * kind; const char * alphabet; RowFn fn[6]; const Row * rows[6]; TextFn text; };

template <typename R, typename B, size_t... I> constexpr void flatten(Row & row, const R & r, B first, std::index_sequence<I...>) {
	row.push(bool(r));
	auto one = [&](const auto & c) {
		if (bool(r) && bool(c)) { row.push(int(c.begin() - first)); row.push(int(c.end() - first)); row.push(int(c.size())); }
		else row.push(-1);
	};
	(one(r.template get<I>()), ...);
}
template <typename R, typename B> constexpr void flatten(Row & row, const R & r, B first) { flatten(row, r, first, std::make_index_sequence<R::count()>()); }
template <typename R, typename B> constexpr void flatten_all(Row & row, const R & range, B first) { for (auto && m: range) flatten(row, m, first); }
}
extern const mon::ConstCase const_cases[];
extern const size_t const_case_count;
