// Monitor for Unicode properties: every assigned code point through every property, against the frozen database.
#include "monutil.hpp"
#include <fstream>
#include <sstream>
#include <string_view>
using namespace mu;
struct UcdCase { const char * pattern; int set; bool negated; bool (*fn)(char32_t); const char * changed; };
extern const UcdCase ucd_cases[];
extern const size_t ucd_case_count;
using Bits = std::vector<bool>;
static Bits bits(const std::string & line) { Bits b(0x110000); std::istringstream in(line); size_t x, y; while (in >> x >> y) for (size_t i = x; i <= y; ++i) b[i] = true; return b; }
int main(int argc, char ** argv) {
	install();
	std::ifstream in(argv[1]);
	std::vector<std::string> lines; std::string l;
	while (std::getline(in, l)) lines.push_back(l);
	Bits mask = bits(lines[0]);
	for (size_t c = from_case(argc, argv); c < ucd_case_count; ++c) {
		const auto & k = ucd_cases[c];
		current.pattern = k.pattern; current.index = c; current.what = "match";
		Bits want = bits(lines[size_t(k.set) + 1]);
		Bits skip(0x110000);
		{ std::istringstream ch(k.changed); size_t x; while (ch >> x) skip[x] = true; }
		long evals = 0, in_set = 0, viol = 0;
		allow_cpu(60);
		for (size_t i = 0; i < 0x110000; ++i) {
			if (!mask[i] || skip[i]) continue;
			bool got = k.fn(char32_t(i));
			++evals; in_set += got;
			if (got != (want[i] != k.negated) && viol++ < 2) { char buf[16]; snprintf(buf, sizeof buf, "U+%04zX", i); printf("{\"violation\":\"%s\",\"pattern\":%s,\"what\":\"match\",\"subject\":\"%s\"}\n", got ? "accepted" : "rejected", jstr(k.pattern).c_str(), buf); }
		}
		allow_cpu(0);
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"accepted\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, evals, in_set, viol);
	}
	printf("{\"done\":%zu}\n", ucd_case_count);
}
