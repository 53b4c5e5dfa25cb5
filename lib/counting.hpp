// An iterator over characters that counts what is done with it and refuses (and reports) to leave its range.
#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace mon {
struct Work { long reads = 0, steps = 0, bad_read = 0, bad_step = 0; };
template <typename C, typename Category> struct Counting {
	using value_type = C; using reference = const C &; using pointer = const C *; using difference_type = std::ptrdiff_t; using iterator_category = Category;
	const C * p = nullptr; const C * b = nullptr; const C * e = nullptr;
	static inline Work work;
	static inline C outside = C('a');
	constexpr Counting() noexcept = default;
	constexpr Counting(const C * p_, const C * b_, const C * e_) noexcept: p(p_), b(b_), e(e_) { }
	reference operator*() const noexcept { ++work.reads; if (!p || p < b || p >= e) { ++work.bad_read; return outside; } return *p; }
	Counting & operator++() noexcept { ++work.steps; if (!p || p >= e) { ++work.bad_step; return *this; } ++p; return *this; }
	Counting operator++(int) noexcept { auto t = *this; ++*this; return t; }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::bidirectional_iterator_tag, Q>>> Counting & operator--() noexcept { ++work.steps; if (!p || p <= b) { ++work.bad_step; return *this; } --p; return *this; }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::bidirectional_iterator_tag, Q>>> Counting operator--(int) noexcept { auto t = *this; --*this; return t; }
	Counting & move(std::ptrdiff_t n) noexcept { ++work.steps; if (!p || n > e - p || n < b - p) { ++work.bad_step; return *this; } p += n; return *this; }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, Q>>> Counting & operator+=(std::ptrdiff_t n) noexcept { return move(n); }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, Q>>> Counting & operator-=(std::ptrdiff_t n) noexcept { return move(-n); }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, Q>>> friend Counting operator+(Counting a, std::ptrdiff_t n) noexcept { return a.move(n); }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, Q>>> friend Counting operator+(std::ptrdiff_t n, Counting a) noexcept { return a.move(n); }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, Q>>> friend Counting operator-(Counting a, std::ptrdiff_t n) noexcept { return a.move(-n); }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, Q>>> friend std::ptrdiff_t operator-(const Counting & a, const Counting & z) noexcept { return a.p - z.p; }
	template <typename Q = Category, typename = std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, Q>>> reference operator[](std::ptrdiff_t n) const noexcept { auto t = *this; t.move(n); return *t; }
	friend constexpr bool operator==(const Counting & a, const Counting & z) noexcept { return a.p == z.p; }
	friend constexpr bool operator!=(const Counting & a, const Counting & z) noexcept { return a.p != z.p; }
	friend constexpr bool operator<(const Counting & a, const Counting & z) noexcept { return a.p < z.p; }
	friend constexpr bool operator>(const Counting & a, const Counting & z) noexcept { return a.p > z.p; }
	friend constexpr bool operator<=(const Counting & a, const Counting & z) noexcept { return a.p <= z.p; }
	friend constexpr bool operator>=(const Counting & a, const Counting & z) noexcept { return a.p >= z.p; }
};
// a sentinel of another type
template <typename C> struct Stop {
	const C * e = nullptr;
	template <typename Cat> friend constexpr bool operator==(const Counting<C, Cat> & a, const Stop & s) noexcept { return a.p == s.e; }
	template <typename Cat> friend constexpr bool operator!=(const Counting<C, Cat> & a, const Stop & s) noexcept { return a.p != s.e; }
	template <typename Cat> friend constexpr bool operator==(const Stop & s, const Counting<C, Cat> & a) noexcept { return a.p == s.e; }
	template <typename Cat> friend constexpr bool operator!=(const Stop & s, const Counting<C, Cat> & a) noexcept { return a.p != s.e; }
};
}
