#pragma once
#include "mon.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <string>
#include <string_view>
#include <vector>
namespace mon {
struct Hit { const char * b; const char * e; bool ok; std::vector<std::pair<const char *, const char *>> cap; };
struct MSeq { std::vector<Hit> el; const char * complaint = nullptr; bool overflow = false; };
// a forward range which reports steps and reads outside of it
struct Watched {
	const std::vector<std::string_view> * v;
	static inline long reads = 0, steps = 0, bad = 0;
	struct iterator {
		using value_type = std::string_view; using reference = const std::string_view &; using pointer = const std::string_view *; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
		const std::vector<std::string_view> * v = nullptr; size_t i = 0;
		reference operator*() const { static const std::string_view none; ++reads; if (!v || i >= v->size()) { ++bad; return none; } return (*v)[i]; }
		iterator & operator++() { ++steps; if (!v || i >= v->size()) { ++bad; return *this; } ++i; return *this; }
		iterator operator++(int) { auto t = *this; ++*this; return t; }
		friend bool operator==(const iterator & a, const iterator & b) { return a.i == b.i; }
		friend bool operator!=(const iterator & a, const iterator & b) { return a.i != b.i; }
		friend bool operator<(const iterator & a, const iterator & b) { return a.i < b.i; }
		friend bool operator>(const iterator & a, const iterator & b) { return a.i > b.i; }
		friend bool operator<=(const iterator & a, const iterator & b) { return a.i <= b.i; }
		friend bool operator>=(const iterator & a, const iterator & b) { return a.i >= b.i; }
	};
	iterator begin() const { return {v, 0}; }
	iterator end() const { return {v, v->size()}; }
};
template <typename R, size_t... I> Hit hit(const R & r, std::index_sequence<I...>) {
	Hit h{nullptr, nullptr, bool(r), {}};
	if (h.ok) { h.b = &*r.begin(); h.e = &*r.end(); (h.cap.push_back(bool(r.template get<I>()) ? std::pair<const char *, const char *>{&*r.template get<I>().begin(), &*r.template get<I>().end()} : std::pair<const char *, const char *>{nullptr, nullptr}), ...); }
	return h;
}
template <typename R> Hit hit(const R & r) { return hit(r, std::make_index_sequence<R::count()>()); }
inline bool operator==(const Hit & a, const Hit & b) { return a.ok == b.ok && a.b == b.b && a.e == b.e && a.cap == b.cap; }
template <typename Rng> void forward(const Rng & r, size_t cap, MSeq & out) {
	for (auto && m: r) { if (out.el.size() > cap) { out.overflow = true; return; } out.el.push_back(hit(m)); }
}
template <typename Rng> void copying(const Rng & r, size_t cap, MSeq & out) {
	auto it = r.begin(); auto end = r.end();
	auto saved = it; decltype(it) dflt; dflt = it;
	size_t n = 0;
	while (!(end == dflt)) {
		if (out.el.size() > cap) { out.overflow = true; return; }
		auto copy = dflt; auto prev = dflt++;
		if (!(hit(*prev) == hit(*copy)) || bool(prev->operator bool()) != bool(*copy)) out.complaint = "post-increment does not return the previous position";
		if (!(prev == copy) || prev != copy) out.complaint = "copies are not equal";
		if (prev == dflt) out.complaint = "iterators at different elements are equal";
		if ((prev == end) || !(end != prev)) out.complaint = "iterator == sentinel depends on the operand order";
		out.el.push_back(hit(*prev));
		++copy;
		if ((copy == end) != (dflt == end)) out.complaint = "a copy advances differently";
		if (++n == 2) saved = prev;
	}
	if (n >= 2) { size_t i = 1; for (; saved != end; saved++, ++i) if (i >= out.el.size() || !(hit(*saved) == out.el[i])) { out.complaint = "continuing from a saved iterator gives other elements"; return; } if (i != out.el.size()) out.complaint = "continuing from a saved iterator gives fewer elements"; }
}
enum { MMatch, MSearch, MStarts, mops };
using MultiFn = void (*)(const std::vector<std::string_view> & v, int shape, size_t cap, MSeq & out);
using OneFn = Hit (*)(std::string_view);
struct MultiCase { const char * pattern; const char * alphabet; int flags; MultiFn fn[3]; OneFn one[3]; };
template <typename F> void shapes(const F & f, const std::vector<std::string_view> & v, int shape, size_t cap, MSeq & out) {
	switch (shape) {
		case 0: forward(v | f, cap, out); break;
		case 1: copying(v | f, cap, out); break;
		case 2: { std::list<std::string_view> l(v.begin(), v.end()); auto r = l | f; forward(r, cap, out); break; }
		case 3: { const std::deque<std::string_view> d(v.begin(), v.end()); auto r = d | f; MSeq once; forward(r, cap, once); copying(r, cap, out); if (!(once.el == out.el)) out.complaint = "a second pass gives other elements"; break; }
		case 4: { Watched w{&v}; Watched::bad = 0; auto r = w | f; forward(r, cap, out); if (Watched::bad) out.complaint = "read or stepped past the end of the range"; break; }
		case 5: { Watched w{&v}; Watched::bad = 0; auto r = w | f; copying(r, cap, out); if (Watched::bad) out.complaint = "read or stepped past the end of the range"; break; }
		case 6: { auto r = std::vector<std::string_view>(v) | f; forward(r, cap, out); break; } // a temporary moved into the view
		case 7: { std::forward_list<std::string_view> l(v.begin(), v.end()); auto r = l | f; auto r2 = r; forward(r2, cap, out); break; }
		case 8: { auto r = f.multi_exec(v); forward(r, cap, out); break; }
	}
}
constexpr int shape_count = 9;
}
extern const mon::MultiCase multi_cases[];
extern const size_t multi_case_count;
