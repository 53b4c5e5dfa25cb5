// Monitor for patterns applied to ranges of subjects.
#include "monmulti.hpp"
#include "monutil.hpp"
using namespace mu;
using namespace mon;

int main(int argc, char ** argv) {
	install();
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	size_t lists = argc > 2 ? size_t(atol(argv[2])) : 60;
	static const char * ops[] = {"match", "search", "starts_with"};
	static const char * shapes_[] = {"vector", "vector, copies", "list", "const deque, two passes", "watched range", "watched range, copies", "temporary vector", "forward_list, copied view", "multi_exec"};
	for (size_t c = from_case(argc, argv); c < multi_case_count; ++c) {
		const auto & k = multi_cases[c];
		Rng rng(seed * 1000003 + c);
		auto pat = ref::parse(decode(k.pattern));
		if (!pat.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s,\"why\":%s}\n", jstr(k.pattern).c_str(), jstr(pat.error).c_str()); continue; }
		auto subj = subjects(pat, k.alphabet, 60, 60, 30, rng);
		long seqs = 0, elements = 0, mixed = 0, viol = 0, unknown = 0;
		current.pattern = k.pattern; current.index = c;
		for (size_t l = 0; l < lists; ++l) {
			size_t n = l < 4 ? l : rng.below(rng.chance(10) ? 40 : 9);
			std::vector<std::string_view> v; std::vector<char *> bufs; std::string desc;
			bool all_in = rng.chance(20), none_in = rng.chance(15);
			for (size_t i = 0; i < n; ++i) {
				std::string s;
				for (int t = 0; t < 30; ++t) { s = subj[rng.below(subj.size())]; if (!all_in && !none_in) break; auto r = ref::run(pat, ref::Search, widen(s), [&] { ref::Opts o; o.ci = k.flags & 1; o.multiline = k.flags & 2; o.budget = 60000; return o; }()); if (r.ok == all_in) break; }
				char * b = static_cast<char *>(malloc(s.size() + 1)); memcpy(b, s.data(), s.size()); b[s.size()] = 'a';
				bufs.push_back(b); v.push_back(std::string_view(b, s.size()));
				desc += (i ? "|" : "") + s;
			}
			for (int op = 0; op < 3; ++op) {
				std::vector<Expected> ex; std::vector<Hit> single; bool skip = false;
				for (auto & s: v) { ex.push_back(expected(pat, ref::Op(op), widen(std::string(s)), k.flags & 1, k.flags & 2)); skip = skip || ex.back().unknown; bool any = false, all = true; for (int q = 0; q < ex.back().n; ++q) { any = any || ex.back().r[q].ok; all = all && ex.back().r[q].ok; } if (any != all) skip = true; single.push_back(k.one[op](s)); }
				if (skip) { unknown++; continue; }
				std::vector<size_t> want; for (size_t i = 0; i < v.size(); ++i) if (ex[i].r[0].ok) want.push_back(i);
				for (int sh = 0; sh < shape_count; ++sh) {
					MSeq q;
					current.what = shapes_[sh]; current.subject = desc;
					allow_cpu(8);
					k.fn[op](v, sh, n + 2, q);
					allow_cpu(0);
					const char * why = q.complaint;
					if (q.overflow) why = "the sequence does not end";
					if (!why && q.el.size() != want.size()) why = q.el.size() < want.size() ? "results are missing" : "there are more results than matching subjects";
					for (size_t i = 0; !why && i < want.size(); ++i) {
						if (!(q.el[i] == single[want[i]])) { why = "a result differs from matching that subject alone"; break; }
						auto & e = ex[want[i]]; bool good = false;
						for (int x = 0; x < e.n; ++x) good = good || (q.el[i].b - v[want[i]].data() == e.r[x].cap[0].first && q.el[i].e - v[want[i]].data() == e.r[x].cap[0].second);
						if (!good) why = "a result is not the match in its subject";
					}
					seqs++; elements += long(q.el.size()); mixed += !want.empty() && want.size() < n;
					if (why && viol++ < 3) printf("{\"violation\":\"multi-subject\",\"pattern\":%s,\"flags\":%d,\"what\":\"%s over %s\",\"why\":\"%s\",\"subject\":%s,\"results\":%zu,\"expected\":%zu}\n", jstr(k.pattern).c_str(), k.flags, ops[op], shapes_[sh], why, jstr(desc).c_str(), q.el.size(), want.size());
				}
			}
			for (auto b: bufs) free(b);
		}
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"elements\":%ld,\"mixed\":%ld,\"unknown\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, seqs, elements, mixed, unknown, viol);
	}
	printf("{\"done\":%zu}\n", multi_case_count);
}
