#include "monmem.hpp"
#include "monutil.hpp"
using namespace mu;
using namespace mon;
int main(int argc, char ** argv) {
	install(false); // SIGPROF only: the sanitizers report the rest
	struct sigaction sa{}; sa.sa_handler = on_signal; sigaction(SIGABRT, &sa, nullptr);
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	size_t scale = argc > 2 ? size_t(atol(argv[2])) : 1;
	for (size_t c = from_case(argc, argv); c < mem_case_count; ++c) {
		const auto & k = mem_cases[c];
		Rng rng(seed * 1000003 + c);
		auto pat = ref::parse(decode(k.pattern));
		if (!pat.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s,\"why\":%s}\n", jstr(k.pattern).c_str(), jstr(pat.error).c_str()); continue; }
		current.pattern = k.pattern; current.index = c;
		auto subj = subjects(pat, k.alphabet, 30 * scale, 30 * scale, 20 * scale, rng);
		size_t plain = subj.size();
		static const char * hostile[] = {"\xC3", "\xE2\x82", "\xF0\x9F\x98", "\x80", "\xBF\xBF", "\xFF", "\xFE", "\xED\xA0\x80", "\xC0\x80", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xC5\x99", "\n", "\r\n", "0"};
		for (size_t i = 0; i < plain && i < 40 * scale; ++i) {
			std::string s = subj[rng.below(plain)];
			for (size_t j = 0, n = 1 + rng.below(3); j < n; ++j) { std::string h = rng.chance(6) ? std::string(1, '\0') : hostile[rng.below(sizeof hostile / sizeof *hostile)]; s.insert(rng.chance(40) ? s.size() : rng.chance(30) ? 0 : rng.below(s.size() + 1), h); }
			if (rng.chance(25) && !s.empty()) s.pop_back();
			subj.push_back(s);
		}
		long viol = 0, runs = 0;
		Seen & seen = mem_seen();
		seen = Seen();
		for (auto & e: k.entry) {
			if (!e.fn) continue;
			current.what = e.what;
			for (auto & s: subj) {
				current.subject = s;
				allow_cpu(15);
				e.fn(s.data(), s.size());
				allow_cpu(0);
				++runs;
				long bad = mem_bad();
				if ((bad || seen.trouble) && viol++ < 3) printf("{\"violation\":\"%s\",\"pattern\":%s,\"flags\":%d,\"what\":\"%s\",\"subject\":%s}\n", bad ? "iterator used outside of its range" : seen.trouble, jstr(k.pattern).c_str(), k.flags, e.what, jstr(s).c_str());
				seen.trouble = nullptr;
			}
		}
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"results\":%ld,\"failed\":%ld,\"unset\":%ld,\"accessors\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, runs, seen.results, seen.failed, seen.unset, seen.accessors, viol);
		fflush(stdout);
	}
	printf("{\"done\":%zu}\n", mem_case_count);
}
