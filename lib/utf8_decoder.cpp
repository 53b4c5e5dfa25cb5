// Monitor for the decoder itself: utf8_range walked forwards and backwards, against the documented decoding.
#include <ctre-unicode.hpp>
#include "monutil.hpp"
using namespace mu;
static void model(const std::u8string & s, std::u32string & cps, std::vector<size_t> & at) {
	for (size_t i = 0; i < s.size();) {
		unsigned c = s[i];
		at.push_back(i);
		size_t want = c < 0xC0 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 1, have = 1;
		while (have < want && i + have < s.size() && (s[i + have] & 0xC0) == 0x80) ++have;
		char32_t v = c;
		if (c >= 0x80) {
			if (want == 1 || have < want) v = 0xFFFD;
			else {
				v = c & (0xFFu >> (want + 1));
				for (size_t k = 1; k < want; ++k) v = (v << 6) | (s[i + k] & 0x3Fu);
				if (v < (want == 2 ? 0x80u : want == 3 ? 0x800u : 0x10000u) || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) v = 0xFFFD;
			}
		}
		cps += v; i += have;
	}
	at.push_back(s.size());
}
static long checked = 0, units = 0, viol = 0, defective = 0;
static void check(const std::u8string & s) {
	std::u32string cps; std::vector<size_t> at;
	model(s, cps, at);
	++checked; units += long(s.size());
	char8_t * p = static_cast<char8_t *>(malloc(s.size()));
	memcpy(p, s.data(), s.size());
	ctre::utf8_range r(std::u8string_view(p, s.size()));
	size_t i = 0; bool good = true;
	auto it = r.begin();
	for (; it != r.end() && i < cps.size(); ++it, ++i) good = good && *it == cps[i] && it.ptr == p + at[i];
	good = good && i == cps.size() && it == r.end();
	if (good) while (i > 0) { --it; --i; good = good && it.ptr == p + at[i] && *it == cps[i]; if (!good) break; }
	for (char32_t c: cps) defective += c == 0xFFFD;
	free(p);
	if (!good && viol++ < 5) printf("{\"violation\":\"decoder\",\"pattern\":\"utf8_range\",\"what\":\"decode\",\"subject\":%s,\"index\":%zu}\n", jstr(std::string(s.begin(), s.end())).c_str(), i);
}
int main(int argc, char ** argv) {
	install();
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	size_t randoms = argc > 2 ? size_t(atol(argv[2])) : 300000;
	current.pattern = "utf8_range"; current.what = "decode";
	allow_cpu(300);
	for (int a = 0; a < 256; ++a) { check({char8_t(a)}); for (int b = 0; b < 256; ++b) check({char8_t(a), char8_t(b)}); }
	static const unsigned char rep[] = {0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xE2, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFF};
	for (int a = 0; a < 256; ++a) for (auto b: rep) for (auto c: rep) check({char8_t(a), char8_t(b), char8_t(c)});
	for (auto a: rep) for (auto b: rep) for (auto c: rep) for (auto d: rep) check({char8_t(a), char8_t(b), char8_t(c), char8_t(d)});
	for (char32_t c = 0; c < 0x200000; ++c) { std::string o; if (c < 0x110000) put8(o, c); else { o += char(0xF0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 0x3F)); o += char(0x80 | ((c >> 6) & 0x3F)); o += char(0x80 | (c & 0x3F)); } std::u8string s(o.begin(), o.end()); check(s); }
	Rng rng(seed);
	for (size_t n = 0; n < randoms; ++n) { std::u8string s; size_t len = rng.below(12); for (size_t i = 0; i < len; ++i) s += rng.chance(50) ? char8_t(rep[rng.below(sizeof rep)]) : rng.chance(50) ? char8_t(0x80 + rng.below(0x40)) : char8_t(rng.below(256)); check(s); }
	printf("{\"decoder\":%ld,\"units\":%ld,\"defective\":%ld,\"viol\":%ld}\n{\"done\":1}\n", checked, units, defective, viol);
}
