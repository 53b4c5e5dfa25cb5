// Monitor for patterns written in literals of different types: the first entry (UTF-32) is compared with the reference
// engine's success, every other one with the first, on subjects sampled from the pattern.
#include "monutil.hpp"
#include "monlit.hpp"
using namespace mu;
using mon::Res;
static bool same(const Res & a, const Res & b) { if (a.ok != b.ok) return false; if (a.n != b.n) return false; if (a.ok) for (int i = 0; i < a.n; ++i) for (int k = 0; k < 2; ++k) if (a.s[i][k] != b.s[i][k]) return false; return true; }
int main(int argc, char ** argv) {
	install();
	Rng r(uint64_t(atol(argv[1])));
	size_t count = size_t(atol(argv[2]));
	for (size_t i = 0; i < lit_flag_count; ++i) if (lit_flags[i].got != lit_flags[i].want) printf("{\"violation\":\"flag\",\"pattern\":%s,\"what\":\"%s\"}\n", jstr(lit_flags[i].what).c_str(), lit_flags[i].want ? "well-formed literal flagged" : "ill-formed literal not flagged");
	for (size_t c = from_case(argc, argv); c < lit_case_count; ++c) {
		const auto & k = lit_cases[c];
		current.pattern = k.pattern; current.index = c;
		ref::Pattern p = ref::parse(decode(k.pattern));
		std::u32string alpha = decode(k.alphabet);
		long evals = 0, hits = 0, viol = 0;
		allow_cpu(120);
		for (size_t i = 0; i < count; ++i) {
			std::u32string s;
			std::vector<std::u32string> caps;
			if (i) { sample(*p.root, s, "ab", r, caps, 0); }
			for (auto & ch: s) if (r.chance(6)) ch = alpha[r.below(alpha.size())];
			if (r.chance(30)) s.insert(r.below(s.size() + 1), 1, alpha[r.below(alpha.size())]);
			if (r.chance(15)) s.clear();
			for (size_t n = r.chance(25) ? r.below(6) : 0; n; --n) s += alpha[r.below(alpha.size())];
			current.subject = encode8(s);
			for (int f = 0; f < 2; ++f) {
				current.what = k.entry[0].what;
				Res first = k.entry[0].fn[f](s.data(), s.size());
				hits += first.ok;
				Expected e = expected(p, f ? ref::Op::Search : ref::Op::Match, s, k.flags & 1, k.flags & 2);
				if (!e.unknown && e.strict && e.r[0].ok != first.ok && viol++ < 3) printf("{\"violation\":\"differs from the text's meaning\",\"pattern\":%s,\"what\":\"%s\",\"subject\":%s}\n", jstr(k.pattern).c_str(), k.entry[0].what, jstr(current.subject).c_str());
				for (const auto * en = k.entry + 1; en->what; ++en) {
					current.what = en->what;
					++evals;
					if (!same(first, en->fn[f](s.data(), s.size())) && viol++ < 3) printf("{\"violation\":\"literal types differ\",\"pattern\":%s,\"what\":\"%s\",\"subject\":%s}\n", jstr(k.pattern).c_str(), en->what, jstr(current.subject).c_str());
				}
			}
		}
		allow_cpu(0);
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"hits\":%ld}\n", jstr(k.pattern).c_str(), c, evals, hits);
	}
	printf("{\"done\":%zu,\"flags\":%zu}\n", lit_case_count, lit_flag_count);
}
