// Monitor for subject representations: every representation against the view of the same text.
#include "monutil.hpp"
#include "monsubj.hpp"
using namespace mu;
using namespace mon;
static bool same(const SeqRes & a, const SeqRes & b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) {
		if (a[i].ok != b[i].ok || a[i].n != b[i].n) return false;
		if (a[i].ok) for (int j = 0; j < a[i].n; ++j) for (int k = 0; k < 2; ++k) if (a[i].s[j][k] != b[i].s[j][k]) return false;
	}
	return true;
}
static std::string show(const SeqRes & a) { std::string o; for (auto & r: a) { if (!r.ok) { o += "- "; continue; } for (int i = 0; i < r.n; ++i) o += "[" + std::to_string(r.s[i][0]) + "," + std::to_string(r.s[i][1]) + "]"; o += " "; } return o.substr(0, 300); }
int main(int argc, char ** argv) {
	install();
	uint64_t seed = strtoull(argv[1], nullptr, 10);
	size_t scale = size_t(atol(argv[2]));
	for (size_t c = from_case(argc, argv); c < subj_case_count; ++c) {
		const auto & k = subj_cases[c];
		Rng r(seed * 7919 + c);
		auto p = ref::parse(decode(k.pattern));
		if (!p.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s}\n", jstr(k.pattern).c_str()); continue; }
		current.pattern = k.pattern; current.index = c;
		std::u32string alpha = decode(k.alphabet);
		bool wide = false; for (auto ch: alpha) wide = wide || ch > 0x7F;
		std::vector<std::u32string> subj;
		if (!wide) for (auto & s: subjects(p, k.alphabet, 60 * scale, 50 * scale, 30 * scale, r)) subj.push_back(decode(s));
		else for (size_t i = 0; i < 120 * scale; ++i) {
			std::u32string s; std::vector<std::u32string> caps;
			if (r.chance(70)) sample(*p.root, s, "ab", r, caps, 0);
			for (auto & ch: s) if (r.chance(8)) ch = alpha[r.below(alpha.size())];
			for (size_t n = r.chance(60) ? r.below(6) : 0; n; --n) s.insert(r.below(s.size() + 1), 1, alpha[r.below(alpha.size())]);
			subj.push_back(s);
		}
		size_t plain = subj.size();
		for (size_t i = 0; i < 15 * scale; ++i) { std::u32string s = subj[r.below(plain)]; for (size_t n = 1 + r.below(2); n; --n) s.insert(r.below(s.size() + 1), 1, U'\0'); subj.push_back(s); }
		long evals = 0, hits = 0, viol = 0, zeros = 0;
		for (auto & s: subj) {
			current.subject = encode8(s);
			bool zero = s.find(U'\0') != s.npos;
			for (auto & e: k.entry) {
				if (!e.fn) break;
				current.what = e.what;
				std::u32string b = e.zero ? s.substr(0, s.find(U'\0')) : s;
				SeqRes want, got;
				allow_cpu(15);
				e.base(want, b.data(), b.size());
				e.fn(got, s.data(), s.size());
				allow_cpu(0);
				++evals; zeros += zero;
				for (auto & x: want) hits += x.ok;
				if (!same(want, got) && viol++ < 3) printf("{\"violation\":\"differs from the plain form\",\"pattern\":%s,\"flags\":%d,\"what\":\"%s\",\"subject\":%s,\"got\":\"%s\",\"view\":\"%s\"}\n", jstr(k.pattern).c_str(), k.flags, e.what, jstr(current.subject).c_str(), show(got).c_str(), show(want).c_str());
			}
		}
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"hits\":%ld,\"zeros\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, evals, hits, zeros, viol);
		fflush(stdout);
	}
	printf("{\"done\":%zu}\n", subj_case_count);
}
