// Online monitor for match/search/starts_with: every call of the library is compared with the reference engine.
#include "mon.hpp"
#include <stdexcept>
#include "monutil.hpp"
using namespace mu;

static bool agrees(const mon::Res & a, const ref::Result & r, bool captures) {
	if (a.ok != r.ok) return false;
	if (!a.ok) return true;
	if (captures && size_t(a.n) != r.cap.size()) return false;
	for (int i = 0; i < (captures ? a.n : 1); ++i)
		if (a.s[i][0] != r.cap[size_t(i)].first || a.s[i][1] != r.cap[size_t(i)].second) return false;
	return true;
}
static std::string show(const mon::Res & r) {
	if (!r.ok) return "no match";
	std::string o;
	for (int i = 0; i < r.n; ++i) o += (i ? " " : "") + std::to_string(r.s[i][0]) + ".." + std::to_string(r.s[i][1]);
	return o;
}
static std::string show(const ref::Result & r) {
	if (!r.ok) return "no match";
	std::string o;
	for (auto & c: r.cap) o += (o.empty() ? "" : " ") + std::to_string(c.first) + ".." + std::to_string(c.second);
	return o;
}

// properties of ASCII characters (the subjects have no others here; P17 is about the tables)
static bool ascii_property(const std::string & n, char32_t c) {
	bool lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', di = c >= '0' && c <= '9';
	if (n == "Ll" || n == "lowercase_letter") return lo;
	if (n == "Lu" || n == "uppercase_letter") return up;
	if (n == "L" || n == "letter" || n == "alpha" || n == "Latin" || n == "latin") return lo || up;
	if (n == "Nd" || n == "digit" || n == "N") return di;
	if (n == "any" || n == "ascii") return true;
	throw std::runtime_error("property " + n);
}

int main(int argc, char ** argv) {
	install();
	ref::property_hook = ascii_property;
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	size_t exhaustive = argc > 2 ? size_t(atol(argv[2])) : 400, samples = argc > 3 ? size_t(atol(argv[3])) : 150, randoms = argc > 4 ? size_t(atol(argv[4])) : 60;
	bool captures = argc > 5 ? atoi(argv[5]) != 0 : true;
	static const char * opname[] = {"match", "search", "starts_with"};
	for (size_t c = from_case(argc, argv); c < mon_case_count; ++c) {
		const mon::Case & k = mon_cases[c];
		Rng rng(seed * 1000003 + c);
		auto pat = ref::parse(decode(k.pattern));
		if (!pat.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s,\"why\":%s}\n", jstr(k.pattern).c_str(), jstr(pat.error).c_str()); continue; }
		large = std::string(k.tag) == "scale";
		auto subj = subjects(pat, k.alphabet, exhaustive, samples, randoms, rng);
		long evals = 0, hits = 0, strict = 0, unknown = 0, viol = 0, capset = 0, lenient = 0;
		current.pattern = k.pattern; current.index = c;
		for (auto & s: subj) {
			std::u32string w = widen(s);
			char * buf = static_cast<char *>(malloc(s.size() + 1)); // the byte past the end belongs to the buffer: out-of-bounds reads are P15's subject
			memcpy(buf, s.data(), s.size()); buf[s.size()] = 'a';
			for (int op = 0; op < 3; ++op) {
				if (!k.fn[op]) continue;
				auto e = expected(pat, ref::Op(op), w, k.flags & 1, k.flags & 2);
				if (e.unknown) { unknown++; continue; }
				current.what = opname[op]; current.subject = s;
				allow_cpu(8);
				auto r = k.fn[op](buf, buf + s.size());
				allow_cpu(0);
				evals++; hits += r.ok; (e.strict ? strict : lenient)++;
				if (r.ok) for (int i = 1; i < r.n; ++i) capset += r.s[i][0] >= 0;
				bool good = false;
				for (int i = 0; i < e.n; ++i) good = good || agrees(r, e.r[i], captures);
				if (!good && viol++ < 3)
					printf("{\"violation\":\"result\",\"pattern\":%s,\"flags\":%d,\"what\":\"%s\",\"subject\":%s,\"got\":\"%s\",\"expected\":\"%s\"}\n", jstr(k.pattern).c_str(), k.flags, opname[op], jstr(s).c_str(), show(r).c_str(), show(e.r[0]).c_str());
			}
			free(buf);
		}
		printf("{\"case\":%s,\"i\":%zu,\"tag\":\"%s\",\"flags\":%d,\"subjects\":%zu,\"evals\":%ld,\"hits\":%ld,\"strict\":%ld,\"lenient\":%ld,\"unknown\":%ld,\"capset\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, k.tag, k.flags, subj.size(), evals, hits, strict, lenient, unknown, capset, viol);
	}
	printf("{\"done\":%zu}\n", mon_case_count);
}
