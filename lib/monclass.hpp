#pragma once
#include <cstddef>
#include <cstdint>
struct ClassCtx { const char * what; const char * pattern; bool negated; bool (*fn)(char32_t); };
struct ClassCase { const char * element; int flags; bool (*f32)(char32_t); bool (*f16)(char16_t); bool (*f8)(char); int contexts; ClassCtx ctx[8]; };
extern const ClassCase class_cases[];
extern const size_t class_case_count;
