// Writes the log of a program using the library: every operation of every case on its subjects. Builds against different distributions must write the same.
#include "monutil.hpp"
#include "monlog.hpp"
using namespace mu;
int main(int argc, char ** argv) {
	install();
	uint64_t seed = strtoull(argv[1], nullptr, 10);
	size_t scale = size_t(atol(argv[2]));
	for (size_t c = from_case(argc, argv); c < log_case_count; ++c) {
		const auto & k = log_cases[c];
		Rng r(seed * 7919 + c);
		auto p = ref::parse(decode(k.pattern));
		current.pattern = k.pattern; current.index = c;
		std::u32string alpha = decode(k.alphabet);
		bool wide = !p.ok; for (auto ch: alpha) wide = wide || ch > 0x7F;
		std::vector<std::u32string> subj;
		if (!wide) for (auto & s: subjects(p, k.alphabet, 30 * scale, 35 * scale, 15 * scale, r)) subj.push_back(decode(s));
		else for (size_t i = 0; i < 80 * scale; ++i) {
			std::u32string s; std::vector<std::u32string> caps;
			if (p.ok && r.chance(70)) sample(*p.root, s, "ab", r, caps, 0);
			for (size_t n = r.chance(70) ? r.below(7) : 0; n; --n) s.insert(r.below(s.size() + 1), 1, alpha[r.below(alpha.size())]);
			subj.push_back(s);
		}
		for (size_t j = 0; j < 8 && k.entry[j].fn; ++j) {
			current.what = k.entry[j].what;
			std::string rows;
			for (auto & s: subj) {
				current.subject = encode8(s);
				mon::Row row;
				allow_cpu(15);
				k.entry[j].fn(row, s.data(), s.size());
				allow_cpu(0);
				if (row.size() > 300) { uint64_t h = 1469598103934665603u; for (char ch: row) h = (h ^ (unsigned char)ch) * 1099511628211u; row = row.substr(0, 250) + "#" + std::to_string(h); }
				rows += (rows.empty() ? "" : ",") + ("[" + jstr(current.subject) + ",") + jstr(row) + "]";
			}
			printf("{\"i\":%zu,\"entry\":%zu,\"what\":\"%s\",\"pattern\":%s,\"rows\":[%s]}\n", c, j, k.entry[j].what, jstr(k.pattern).c_str(), rows.c_str());
			fflush(stdout);
		}
	}
	printf("{\"done\":%zu,\"other\":%d}\n", log_case_count, other_unit("ab", "ab" + 2));
}
