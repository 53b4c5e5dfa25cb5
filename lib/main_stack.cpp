// Monitor for stack use: the deepest frame from which the subject is read, for growing subjects.
#include "monstack.hpp"
#include "monutil.hpp"
using namespace mu;
using namespace mon;
int main(int argc, char ** argv) {
	install();
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	size_t large = argc > 2 ? size_t(atol(argv[2])) : 40000;
	static const char * opname[] = {"match", "starts_with", "search", "search_all", "split", "tokenize"};
	for (size_t c = from_case(argc, argv); c < stack_case_count; ++c) {
		const auto & k = stack_cases[c];
		Rng rng(seed * 1000003 + c);
		current.pattern = k.pattern; current.index = c;
		struct Seg { char how; std::string chars; };
		std::vector<Seg> segs;
		for (const char * p = k.plan; *p;) { Seg s; s.how = *p++; while (*p && *p != '\x01') s.chars += *p++; if (*p) ++p; segs.push_back(s); }
		auto once = [&](std::string & s, size_t len) { for (auto & g: segs) { if (g.how == '=') { s += g.chars; continue; } if (g.how == '~') { for (size_t i = 0; i < len; ++i) s += g.chars; continue; } for (size_t i = 0; i < (len ? len : size_t(g.how == '+')); ++i) s += g.chars[rng.below(g.chars.size())]; } };
		long evals = 0, reads = 0, viol = 0, deepest = 0, growth = 0, results = 0;
		for (int shape = 0; shape < 4; ++shape) for (int op = 0; op < 6; ++op) {
			if (!k.fn[op]) continue;
			long depth[2]; long res[2];
			for (int big = 0; big < 2; ++big) {
				size_t n = big ? large : 300;
				std::string s;
				if (shape == 0) once(s, n / (segs.size() ? segs.size() : 1));           // one long stretch
				else if (shape == 1) for (size_t before = 0; s.size() < n; before = s.size()) { once(s, 1 + rng.below(5)); if (s.size() == before) break; }      // many short ones
				else if (shape == 2) { once(s, n / (segs.size() ? segs.size() : 1)); if (!s.empty()) s.pop_back(); s += '\x02'; }
				else { while (s.size() < n) { s += '\x02'; if (rng.chance(2)) once(s, 2); } }
				current.what = opname[op]; current.subject = s.substr(0, 100);
				allow_cpu(200);
				Depth d = k.fn[op](s.data(), s.data() + s.size());
				allow_cpu(0);
				depth[big] = d.bytes; res[big] = d.results; reads += d.reads; evals++; results += d.results;
				if (d.bytes > deepest) deepest = d.bytes;
			}
			long g = depth[1] - depth[0];
			if (g > growth) growth = g;
			if (g > 16000 && viol++ < 3) printf("{\"violation\":\"stack\",\"pattern\":%s,\"what\":\"%s\",\"subject\":%s,\"small_subject\":300,\"large_subject\":%zu,\"bytes_small\":%ld,\"bytes_large\":%ld}\n", jstr(k.pattern).c_str(), opname[op], jstr(current.subject).c_str(), large, depth[0], depth[1]);
		}
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"reads\":%ld,\"deepest\":%ld,\"growth\":%ld,\"results\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, evals, reads, deepest, growth, results, viol);
	}
	printf("{\"done\":%zu}\n", stack_case_count);
}
