#pragma once
#include "mon.hpp"
#include <string_view>
#include <vector>
namespace mon {
enum IterKind { SearchAll = 0, Split = 1, Tokenize = 2 };
enum IterMode { RangeFor = 0, Copies = 1, SecondPass = 2, Sentinel = 3, Pair = 4, Pipe = 5, modes = 6 };
struct Seq { std::vector<Res> el; bool overflow = false; const char * complaint = nullptr; };
using IterFn = void (*)(const char * b, const char * e, int mode, size_t cap, Seq & out);
struct IterCase { const char * pattern; const char * tag; const char * alphabet; int flags; int kind; IterFn fn; };

template <typename A, typename B> bool same(const A & a, const B & b) {
	if (bool(a) != bool(b)) return false;
	return !bool(a) || (a.begin() == b.begin() && a.end() == b.end());
}
template <typename It, typename End> void plain(It it, End end, const char * b, size_t cap, Seq & out) {
	for (; it != end; ++it) {
		if (out.el.size() >= cap) { out.overflow = true; return; }
		out.el.push_back(conv(*it, b));
	}
}
// the same sequence through copies, post-increment, assignment and saved iterators
template <typename It, typename End> void copies(It it, End end, const char * b, size_t cap, Seq & out) {
	It saved = it, other = it;
	size_t k = 0;
	std::vector<It> seen; // the first few positions and the one behind the last element
	while (!(it == end)) {
		if (seen.size() < 8) seen.push_back(it);
		if (out.el.size() >= cap) { out.overflow = true; return; }
		It copy = it;
		It prev = it++;
		if (!(prev != end) || !same(*prev, *copy)) out.complaint = "post-increment does not return the previous position";
		if (end == copy || !(end != copy)) out.complaint = "iterator == sentinel depends on the operand order";
		out.el.push_back(conv(*prev, b));
		++copy;
		if ((copy == end) != (it == end) || (copy != end && !same(*copy, *it))) out.complaint = "a copy advances differently";
		if (++k == 2) saved = prev;
		other = copy;
		it = other;
	}
	const bool all = k == seen.size();
	seen.push_back(it);
	// two iterators are equal exactly if they are at the same element, and ordered as the elements are
	for (size_t i = 0; i < seen.size(); ++i) for (size_t j = 0; j < seen.size(); ++j) {
		const It & x = seen[i]; const It & y = seen[j];
		if ((x == y) != (i == j) || (x != y) != (i != j)) out.complaint = i + 1 == seen.size() || j + 1 == seen.size() ? "an iterator at an element equals the one behind the last element" : "iterators at two elements are equal";
		if ((x < y) != (i < j) || (x > y) != (i > j) || (x <= y) != (i <= j) || (x >= y) != (i >= j)) out.complaint = "iterators are not ordered as their elements";
	}
	if (all && seen.size() > 1) {
		It walk = seen[0];
		size_t steps = 0;
		for (; walk != seen.back() && steps < cap; ++walk) ++steps;
		if (steps + 1 != seen.size()) out.complaint = "a loop up to the iterator behind the last element takes another number of steps";
	}
	if (k >= 2) { // continue from the iterator saved at the second element
		size_t i = 1;
		for (; saved != end; ++saved, ++i) {
			Res x = conv(*saved, b);
			if (i >= out.el.size() || x.n != out.el[i].n) { out.complaint = "continuing from a saved iterator gives more elements"; return; }
			for (int c = 0; c < x.n; ++c) if (x.s[c][0] != out.el[i].s[c][0] || x.s[c][1] != out.el[i].s[c][1]) { out.complaint = "continuing from a saved iterator gives other elements"; return; }
			if (i > cap) { out.complaint = "continuing from a saved iterator does not end"; return; }
		}
		if (i != out.el.size()) out.complaint = "continuing from a saved iterator gives fewer elements";
	}
}
template <typename Range> void drive(const Range & r, const char * b, int mode, size_t cap, Seq & out) {
	switch (mode) {
		case RangeFor: for (auto && m: r) { if (out.el.size() >= cap) { out.overflow = true; return; } out.el.push_back(conv(m, b)); } break;
		case Copies: copies(r.begin(), r.end(), b, cap, out); break;
		case SecondPass: { Seq first; plain(r.begin(), r.end(), b, cap, first); plain(r.begin(), r.end(), b, cap, out); break; }
	}
}
}
extern const mon::IterCase iter_cases[];
extern const size_t iter_case_count;
