// Monitor for UTF-8 subjects: the library on UTF-8 against the library on the decoded code points.
#pragma once
#include "mon.hpp"
#include <string>
#include <string_view>
#include <vector>
namespace mon {
using SeqRes = std::vector<Res>;
template <typename R, typename P> void grab(SeqRes & out, const R & r, P base) { out.push_back(conv(r, base, std::make_index_sequence<R::count()>())); }
template <typename R, typename P> void grab_all(SeqRes & out, const R & range, P base, size_t limit) { for (auto && m: range) { grab(out, m, base); if (out.size() > limit) break; } }
using U8Fn = void (*)(SeqRes & out, const void * b, size_t n);
struct UtfEntry { const char * what; U8Fn u8, u32; bool stops_at_zero; };
struct UtfCase { const char * pattern; const char * alphabet; int flags; UtfEntry entry[4]; };
}
