// Monitor for patterns written in literals of different types.
#pragma once
#include "mon.hpp"
#include <string>
#include <string_view>
namespace mon {
using LitFn = Res (*)(const char32_t * b, size_t n);
struct LitEntry { const char * what; LitFn fn[2]; };
struct LitCase { const char * pattern; const char * alphabet; int flags; LitEntry entry[9]; };
struct LitFlag { const char * what; bool got, want; };
}
extern const mon::LitCase lit_cases[];
extern const size_t lit_case_count;
extern const mon::LitFlag lit_flags[];
extern const size_t lit_flag_count;
