// Online monitor for single-character elements: every code point is offered to the compiled element and the
// verdict compared with the definition (lib/ref.cpp), for UTF-32, UTF-16 and narrow subjects and in contexts.
#include "monclass.hpp"
#include "monutil.hpp"
using namespace mu;

int main(int argc, char ** argv) {
	install();
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	for (size_t c = from_case(argc, argv); c < class_case_count; ++c) {
		const auto & k = class_cases[c];
		Rng rng(seed * 7919 + c);
		current.index = c; current.pattern = k.element;
		auto pat = ref::parse(decode(k.element));
		if (!pat.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s,\"why\":%s}\n", jstr(k.element).c_str(), jstr(pat.error).c_str()); continue; }
		const bool ci = k.flags & 1, ml = k.flags & 2;
		ref::Opts o; o.ci = ci; o.multiline = ml;
		auto member = [&](char32_t ch) -> bool {
			const ref::Node & n = *pat.root;
			if (n.k == ref::Set) { bool any = false; for (auto & i: n.items) any = any || ref::item_matches(i, ch, ci); return any != n.neg; }
			return ref::run(pat, ref::Match, std::u32string(1, ch), o).ok;
		};
		long evals = 0, accepted = 0, viol = 0;
		auto report = [&](const char * what, const char * pattern, uint32_t ch, bool got) {
			if (viol++ < 3) printf("{\"violation\":\"membership\",\"pattern\":%s,\"element\":%s,\"flags\":%d,\"what\":\"%s\",\"codepoint\":\"U+%04X\",\"got\":%d,\"expected\":%d}\n", jstr(pattern).c_str(), jstr(k.element).c_str(), k.flags, what, ch, int(got), int(!got));
		};
		std::vector<bool> in(0x110000);
		allow_cpu(120);
		for (uint32_t ch = 0; ch < 0x110000; ++ch) {
			const bool want = member(ch); in[ch] = want;
			const bool got = k.f32(ch);
			evals++; accepted += want;
			if (got != want) report("UTF-32", k.element, ch, got);
		}
		for (uint32_t ch = 0; ch < 0x10000; ++ch) { evals++; if (bool got = k.f16(char16_t(ch)); got != in[ch]) report("UTF-16", k.element, ch, got); }
		for (uint32_t ch = 0; ch < 0x80; ++ch) { evals++; if (bool got = k.f8(char(ch)); got != in[ch]) report("narrow", k.element, ch, got); }
		for (int x = 0; x < k.contexts; ++x) {
			auto & t = k.ctx[x];
			auto one = [&](uint32_t ch) { evals++; const bool want = in[ch] != t.negated; if (bool got = t.fn(ch); got != want) report(t.what, t.pattern, ch, got); };
			for (uint32_t ch = 0; ch < 0x400; ++ch) one(ch);
			for (uint32_t ch = 0x400; ch < 0x110000; ++ch) if (in[ch] != in[ch - 1]) { one(ch - 1); one(ch); if (ch < 0x10FFFF) one(ch + 1); }
			for (int i = 0; i < 600; ++i) one(uint32_t(rng.below(0x110000)));
		}
		allow_cpu(0);
		printf("{\"case\":%s,\"i\":%zu,\"flags\":%d,\"evals\":%ld,\"accepted\":%ld,\"contexts\":%d,\"viol\":%ld}\n", jstr(k.element).c_str(), c, k.flags, evals, accepted, k.contexts, viol);
	}
	printf("{\"done\":%zu}\n", class_case_count);
}
