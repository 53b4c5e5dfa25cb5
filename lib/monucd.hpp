#pragma once
#include <ctre-unicode.hpp>
#include <string_view>
struct UcdCase { const char * pattern; int set; bool negated; bool (*fn)(char32_t); const char * changed; };
template <ctll::fixed_string P> bool accepts(char32_t c) { return ctre::match<P>(std::u32string_view(&c, 1)); }
