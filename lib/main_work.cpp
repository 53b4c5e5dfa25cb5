// Monitor for termination and the amount of work: subjects are read through iterators that count every read and step.
#include "monwork.hpp"
#include "monutil.hpp"
using namespace mu;
using namespace mon;

static const char * opname[] = {"match", "starts_with", "search", "search_all", "split", "tokenize"};

int main(int argc, char ** argv) {
	install();
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	for (size_t c = from_case(argc, argv); c < work_case_count; ++c) {
		const auto & k = work_cases[c];
		Rng rng(seed * 1000003 + c);
		current.pattern = k.pattern; current.index = c;
		long evals = 0, reads = 0, longest = 0, matched = 0, failed = 0, viol = 0; double worst = 0;
		if (k.kind == 0) {
			struct Seg { char how; std::string chars; };
			std::vector<Seg> segs;
			for (const char * p = k.plan; *p;) { Seg s; s.how = *p++; while (*p && *p != '\x01') s.chars += *p++; if (*p) ++p; segs.push_back(s); }
			auto run = [&](size_t n, int defect) {
				std::string s; size_t reps = 0; for (auto & g: segs) reps += g.how != '=';
				for (auto & g: segs) {
					if (g.how == '=') { s += g.chars; continue; }
					size_t len = defect == 4 && rng.chance(50) ? rng.below(3) + (g.how == '+') : n / (reps ? reps : 1);
					for (size_t i = 0; i < len; ++i) s += g.chars[rng.below(g.chars.size())];
				}
				if (defect == 1 && !s.empty()) s.pop_back();                           // the last required character is missing
				if (defect == 2 && !s.empty()) s.back() = '\x02';                       // it is wrong
				if (defect == 3 && !s.empty()) s[s.size() / 2] = '\x02';                // a character in the middle is wrong
				if (defect == 5) s += s;
				return s;
			};
			for (size_t n: {size_t(0), size_t(40), size_t(700), size_t(3000)}) for (int defect = 0; defect < 6; ++defect) {
				std::string s = run(n, defect);
				for (int op = 0; op < 2; ++op) {
					It::work = Work{};
					current.what = opname[op]; current.subject = s;
					allow_cpu(8);
					Done d = k.fn[op](s.data(), s.data() + s.size());
					allow_cpu(0);
					evals++; reads += d.reads; if (long(s.size()) > longest) longest = long(s.size()); (d.ok ? matched : failed)++;
					double bound = 1.5 * double(s.size()) + 16.0 * double(segs.size()) + 32;
					if (s.size() > 500 && double(d.reads) / double(s.size()) > worst) worst = double(d.reads) / double(s.size());
					if (double(d.reads) > bound && viol++ < 3)
						printf("{\"violation\":\"work\",\"pattern\":%s,\"what\":\"%s\",\"length\":%zu,\"inspections\":%ld,\"bound\":%.0f,\"subject_kind\":%d,\"subject\":%s}\n", jstr(k.pattern).c_str(), opname[op], s.size(), d.reads, bound, defect, jstr(s.substr(0, 60)).c_str());
				}
			}
		} else {
			auto pat = ref::parse(decode(k.pattern));
			if (!pat.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s,\"why\":%s}\n", jstr(k.pattern).c_str(), jstr(pat.error).c_str()); continue; }
			auto subj = subjects(pat, k.alphabet, 200, 40, 40, rng);
			for (auto & s: subj) {
				if (s.size() > 14) continue;
				for (int op = 0; op < k.nops; ++op) {
					It::work = Work{};
					current.what = opname[op]; current.subject = s;
					allow_cpu(8); // a subject of at most 14 characters
					Done d = k.fn[op](s.data(), s.data() + s.size());
					allow_cpu(0);
					evals++; reads += d.reads; if (long(s.size()) > longest) longest = long(s.size()); (d.ok ? matched : failed)++;
					if (op >= 3 && !d.ok && viol++ < 3) printf("{\"violation\":\"endless sequence\",\"pattern\":%s,\"what\":\"%s\",\"subject\":%s,\"elements\":%ld}\n", jstr(k.pattern).c_str(), opname[op], jstr(s).c_str(), d.elements);
				}
			}
		}
		printf("{\"case\":%s,\"i\":%zu,\"kind\":%d,\"evals\":%ld,\"reads\":%ld,\"longest\":%ld,\"matched\":%ld,\"failed\":%ld,\"worst\":%.3f,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, k.kind, evals, reads, longest, matched, failed, worst, viol);
	}
	printf("{\"done\":%zu}\n", work_case_count);
}
