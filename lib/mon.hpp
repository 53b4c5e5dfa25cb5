// Interface between generated drivers (which instantiate the library's patterns) and the monitors.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>

namespace mon {

constexpr int max_caps = 48;

struct Res {
	bool ok = false;
	int n = 0;                 // number of captures incl. 0
	int s[max_caps][2];        // unit offsets, -1: not set
};

using Fn = Res (*)(const char * b, const char * e);

struct Case {
	const char * pattern;      // UTF-8
	const char * tag;          // generator family
	const char * alphabet;     // characters for subjects
	int flags;                 // 1: case insensitive, 2: multiline
	Fn fn[3];                  // match, search, starts_with (nullptr: not instantiated)
};

template <typename R, typename P, size_t... I> Res conv(const R & r, P base, std::index_sequence<I...>) {
	Res out;
	out.ok = bool(r);
	out.n = int(sizeof...(I));
	auto one = [&](int i, const auto & c) {
		if (out.ok && bool(c)) {
			out.s[i][0] = int(&*c.begin() - base);
			out.s[i][1] = int(&*c.end() - base);
		} else out.s[i][0] = out.s[i][1] = -1;
	};
	(one(int(I), r.template get<I>()), ...);
	return out;
}
template <typename R> Res conv(const R & r, const char * base) { return conv(r, base, std::make_index_sequence<R::count()>()); }

}

// generated code provides these
extern const mon::Case mon_cases[];
extern const size_t mon_case_count;
