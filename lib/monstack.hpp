#pragma once
#include "mon.hpp"
#include <iterator>
namespace mon {
struct Lowest { static inline char * at = nullptr; static inline long reads = 0; };
// pointer-like iterator that notes how deep the stack is at every read
struct Deep {
	using value_type = char; using reference = const char &; using pointer = const char *; using difference_type = std::ptrdiff_t; using iterator_category = std::bidirectional_iterator_tag;
	const char * p = nullptr;
	__attribute__((noinline)) static void note() noexcept { char * f = static_cast<char *>(__builtin_frame_address(0)); if (f < Lowest::at) Lowest::at = f; ++Lowest::reads; }
	reference operator*() const noexcept { note(); return *p; }
	Deep & operator++() noexcept { note(); ++p; return *this; }
	Deep operator++(int) noexcept { note(); auto t = *this; ++p; return t; }
	Deep & operator--() noexcept { --p; return *this; }
	Deep operator--(int) noexcept { auto t = *this; --p; return t; }
	friend bool operator==(const Deep & a, const Deep & b) noexcept { return a.p == b.p; }
	friend bool operator!=(const Deep & a, const Deep & b) noexcept { return a.p != b.p; }
};
struct Depth { long bytes, reads, results; };
using StackFn = Depth (*)(const char * b, const char * e);
struct StackCase { const char * pattern; const char * plan; int kind; StackFn fn[6]; };
template <typename F> __attribute__((noinline)) Depth measure(const F & f) {
	char * base = static_cast<char *>(__builtin_frame_address(0));
	Lowest::at = base; Lowest::reads = 0;
	long n = f();
	return {long(base - Lowest::at), Lowest::reads, n};
}
template <typename R> long count(const R & r) { long n = 0; for (auto && m: r) { (void)m; ++n; } return n; }
}
extern const mon::StackCase stack_cases[];
extern const size_t stack_case_count;
