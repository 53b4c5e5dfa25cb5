// Monitor for constant evaluation: rows computed by the compiler against rows computed now; rows of fixed and random subjects are reported for comparison between configurations.
#include "monutil.hpp"
#include "monconst.hpp"
using namespace mu;
using namespace mon;
static const char * const ops[6] = {"match", "starts_with", "search", "search_all", "split", "tokenize"};
static std::string show(const Row & r) { std::string o = std::to_string(r.n) + ":" + std::to_string(r.h) + ":"; for (int i = 0; i < r.n && i < 12; ++i) o += std::to_string(r.v[i]) + ","; return o; }
int main(int argc, char ** argv) {
	install();
	uint64_t seed = strtoull(argv[1], nullptr, 10);
	size_t random = size_t(atol(argv[2]));
	bool list = atoi(argv[3]);
	for (size_t c = from_case(argc, argv); c < const_case_count; ++c) {
		const auto & k = const_cases[c];
		unsigned long hp = 5381; for (const char * q = k.pattern; *q; ++q) hp = hp * 33 + (unsigned char)*q; // the same subjects wherever the case stands
		Rng r(seed * 7919 + hp);
		auto p = ref::parse(decode(k.pattern));
		if (!p.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s}\n", jstr(k.pattern).c_str()); continue; }
		current.pattern = k.pattern; current.index = c;
		std::u32string alpha = decode(k.alphabet);
		std::vector<std::u32string> subj;
		for (size_t i = 0; i < random; ++i) {
			std::u32string s; std::vector<std::u32string> caps;
			if (r.chance(75)) sample(*p.root, s, "ab", r, caps, 0);
			for (auto & ch: s) if (r.chance(6)) ch = alpha[r.below(alpha.size())];
			for (size_t n = r.chance(70) ? r.below(8) : 0; n; --n) s.insert(r.below(s.size() + 1), 1, alpha[r.below(alpha.size())]);
			if (r.chance(5)) { auto t = s; while (s.size() < 200) s += t + alpha[r.below(alpha.size())]; }
			if (std::string(k.kind) == "narrow" || std::string(k.kind) == "C string") for (auto & ch: s) if (ch > 0x7F) ch = '~';
			subj.push_back(s);
		}
		std::string rows; long hits = 0, viol = 0, evals = 0;
		for (int o = 0; o < 6; ++o) {
			if (!k.fn[o]) continue;
			current.what = ops[o];
			rows += std::string(rows.empty() ? "" : ",") + "\"" + ops[o] + "\":[";
			for (size_t j = 0; j < const_subjects; ++j) {
				std::u32string s; k.text(j, s); current.subject = encode8(s);
				allow_cpu(15);
				Row now = k.fn[o](s.data(), s.size());
				allow_cpu(0);
				++evals;
				if (k.rows[o]) {
					if (now.v[0] == 1) ++hits;
					if (!same_row(now, k.rows[o][j]) && viol++ < 3) printf("{\"violation\":\"constant evaluation differs from run time\",\"pattern\":%s,\"kind_of_subject\":\"%s\",\"what\":\"%s\",\"subject\":%s,\"constant\":\"%s\",\"run_time\":\"%s\"}\n", jstr(k.pattern).c_str(), k.kind, ops[o], jstr(current.subject).c_str(), show(k.rows[o][j]).c_str(), show(now).c_str());
				}
				rows += (j ? ",\"" : "\"") + show(now) + "\"";
			}
			rows += ",\"";
			for (auto & s: subj) {
				current.subject = encode8(s);
				allow_cpu(15);
				Row now = k.fn[o](s.data(), s.size());
				allow_cpu(0);
				++evals;
				if (now.v[0] == 1) ++hits;
				char b[8]; snprintf(b, sizeof b, "%04x", (now.h ^ (now.h >> 16)) & 0xFFFF); rows += b;
			}
			rows += "\"]";
		}
		std::string l;
		if (list) for (auto & s: subj) l += (l.empty() ? "" : ",") + jstr(encode8(s));
		printf("{\"case\":%s,\"kind\":\"%s\",\"i\":%zu,\"evals\":%ld,\"hits\":%ld,\"rows\":{%s}%s}\n", jstr(k.pattern).c_str(), k.kind, c, evals, hits, rows.c_str(), list ? (",\"subjects\":[" + l + "]").c_str() : "");
		fflush(stdout);
	}
	printf("{\"done\":%zu}\n", const_case_count);
}
