// Drives the accessor monitor.
#include "monutil.hpp"
#include "monacc.hpp"
using namespace mu;
using namespace mon;
int main(int argc, char ** argv) {
	install();
	uint64_t seed = strtoull(argv[1], nullptr, 10);
	size_t scale = size_t(atol(argv[2]));
	for (size_t c = from_case(argc, argv); c < acc_case_count; ++c) {
		const auto & k = acc_cases[c];
		Rng r(seed * 7919 + c);
		auto p = ref::parse(decode(k.pattern));
		if (!p.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s}\n", jstr(k.pattern).c_str()); continue; }
		current.pattern = k.pattern; current.index = c;
		std::u32string alpha = decode(k.alphabet);
		bool wide = false; for (auto ch: alpha) wide = wide || ch > 0x7F;
		std::vector<std::u32string> subj;
		if (!wide) for (auto & s: subjects(p, k.alphabet, 40 * scale, 50 * scale, 15 * scale, r)) subj.push_back(decode(s));
		else for (size_t i = 0; i < 90 * scale; ++i) {
			std::u32string s; std::vector<std::u32string> caps;
			if (r.chance(75)) sample(*p.root, s, "ab", r, caps, 0);
			for (size_t n = r.chance(60) ? r.below(6) : 0; n; --n) s.insert(r.below(s.size() + 1), 1, alpha[r.below(alpha.size())]);
			subj.push_back(s);
		}
		Acc before = acc_state();
		long viol = 0;
		for (auto & s: subj) {
			current.subject = encode8(s);
			for (auto & e: k.entry) {
				if (!e.fn) break;
				current.what = e.what;
				Acc & a = acc_state();
				a.trouble[0] = 0;
				allow_cpu(15);
				e.fn(s.data(), s.size());
				allow_cpu(0);
				if (a.trouble[0] && viol++ < 3) printf("{\"violation\":\"accessors disagree\",\"pattern\":%s,\"flags\":%d,\"what\":\"%s\",\"subject\":%s,\"disagreement\":%s}\n", jstr(k.pattern).c_str(), k.flags, e.what, jstr(current.subject).c_str(), jstr(a.trouble).c_str());
			}
		}
		Acc & a = acc_state();
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"results\":%ld,\"captures\":%ld,\"set\":%ld,\"unset\":%ld,\"failed\":%ld,\"empty\":%ld,\"numbers\":%ld}\n", jstr(k.pattern).c_str(), c, a.asked - before.asked, a.results - before.results, a.captures - before.captures, a.set - before.set, a.unset - before.unset, a.failed - before.failed, a.empty - before.empty, a.numbers - before.numbers);
		fflush(stdout);
	}
	printf("{\"done\":%zu}\n", acc_case_count);
}
