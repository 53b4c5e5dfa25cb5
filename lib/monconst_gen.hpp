// the part of the monitor that is compiled with the library
#pragma once
#include "monconst.hpp"
namespace mon {
#if CTRE_CNTTP_COMPILER_CHECK
#define MON_PATTERN ctll::fixed_string
#else
#define MON_PATTERN const auto &
#endif
template <int Op, MON_PATTERN P, typename... M> struct Run {
	template <typename S, typename B> static constexpr Row on(const S & s, B first) {
		Row row;
		if constexpr (Op == 0) flatten(row, ctre::match<P, M...>(s), first);
		if constexpr (Op == 1) flatten(row, ctre::starts_with<P, M...>(s), first);
		if constexpr (Op == 2) flatten(row, ctre::search<P, M...>(s), first);
		if constexpr (Op == 3) flatten_all(row, ctre::search_all<P, M...>(s), first);
		if constexpr (Op == 4) flatten_all(row, ctre::split<P, M...>(s), first);
		if constexpr (Op == 5) flatten_all(row, ctre::tokenize<P, M...>(s), first);
		return row;
	}
};
template <typename Ch, bool Z, int Op, MON_PATTERN P, typename... M> constexpr Row eval_on(std::basic_string_view<Ch> s) {
	if constexpr (Z) return Run<Op, P, M...>::on(s.data(), s.data());
#if defined(__cpp_char8_t)
	else if constexpr (std::is_same_v<Ch, char8_t>) return Run<Op, P, M...>::on(s, s.data());
#endif
	else return Run<Op, P, M...>::on(s, s.begin());
}
template <typename C, int Op, size_t... I> constexpr std::array<Row, const_subjects> make_rows(std::index_sequence<I...>) { return {C::template ev<Op>(C::subj[I])...}; }
template <typename C, int Op> struct Const { static constexpr std::array<Row, const_subjects> rows = make_rows<C, Op>(std::make_index_sequence<const_subjects>()); };
template <typename C, int Op> Row at_run_time(const char32_t * b, size_t n) {
	using Ch = typename C::Ch;
	std::vector<Ch> v(n + (C::zero ? 1 : 0));
	v.shrink_to_fit();
	for (size_t i = 0; i < n; ++i) v[i] = Ch(b[i]);
	return C::template ev<Op>(std::basic_string_view<Ch>(v.data(), n));
}
template <typename C> void text_of(size_t j, std::u32string & out) {
	out.clear();
	for (auto c: C::subj[j]) out += char32_t(std::make_unsigned_t<std::conditional_t<std::is_same_v<typename C::Ch, char>, char, int>>(c));
}
}
