#include "monutf.hpp"
#include "monutil.hpp"
using namespace mu;
using namespace mon;
extern const UtfCase utf_cases[];
extern const size_t utf_case_count;
// the documented decoding: a lead unit with the continuation units following it up to its declared length; defective: U+FFFD
static void model(const std::string & s, std::u32string & cps, std::vector<int> & at) {
	for (size_t i = 0; i < s.size();) {
		unsigned char c = (unsigned char)s[i];
		at.push_back(int(i));
		size_t want = c < 0x80 ? 1 : c < 0xC0 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 1;
		size_t have = 1;
		while (have < want && i + have < s.size() && ((unsigned char)s[i + have] & 0xC0) == 0x80) ++have;
		char32_t v = c;
		if (c >= 0x80) {
			if (want == 1 || have < want) v = 0xFFFD;
			else {
				v = c & (0xFFu >> (want + 1));
				for (size_t k = 1; k < want; ++k) v = (v << 6) | ((unsigned char)s[i + k] & 0x3F);
				if (v < (want == 2 ? 0x80u : want == 3 ? 0x800u : 0x10000u) || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) v = 0xFFFD;
			}
		}
		cps += v;
		i += have;
	}
	at.push_back(int(s.size()));
}
static std::string show(const SeqRes & r) {
	std::string o;
	for (auto & x: r) {
		o += o.empty() ? "" : " | ";
		if (!x.ok) { o += "no match"; continue; }
		for (int i = 0; i < x.n; ++i) o += (i ? " " : "") + std::to_string(x.s[i][0]) + ".." + std::to_string(x.s[i][1]);
	}
	return o.substr(0, 300);
}
int main(int argc, char ** argv) {
	install();
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	size_t count = argc > 2 ? size_t(atol(argv[2])) : 250;
	static const char * bad[] = {"\xC3", "\xE2\x82", "\xE2", "\xF0\x9F\x98", "\xF0\x9F", "\xF0", "\x80", "\xBF\xBF", "\xFF", "\xFE", "\xF8\x88\x80\x80\x80", "\xED\xA0\x80", "\xED\xBF\xBF", "\xC0\x80", "\xC1\xA1", "\xE0\x80\xAF", "\xF0\x80\x80\xAF", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF", "\xEF\xBF\xBD", "\xC3\x28", "\xE2\x82\x28", "\xF0\x9F\x98\x28", "\xC3\xC3\xA9"};
	for (size_t c = from_case(argc, argv); c < utf_case_count; ++c) {
		const auto & k = utf_cases[c];
		Rng rng(seed * 1000003 + c);
		current.pattern = k.pattern; current.index = c;
		auto alpha = decode(k.alphabet);
		auto lit = decode(k.pattern);
		for (char32_t ch: lit) if (ch >= 0x80) alpha += ch;
		long evals = 0, hits = 0, malformed = 0, nonascii = 0, viol = 0, results = 0;
		for (size_t n = 0; n < count; ++n) {
			std::string s;
			size_t len = n < 3 ? n : rng.below(rng.chance(10) ? 24 : 9);
			bool hostile = n % 2;
			for (size_t i = 0; i < len; ++i) {
				if (hostile && rng.chance(25)) s += bad[rng.below(sizeof bad / sizeof *bad)];
				else put8(s, alpha[rng.below(alpha.size())]);
			}
			if (hostile && rng.chance(20) && !s.empty()) s.erase(rng.below(s.size()), 1);
			if (rng.chance(3)) s.insert(rng.below(s.size() + 1), 1, '\0');
			for (auto & e: k.entry) {
				if (!e.u8) continue;
				std::string t = e.stops_at_zero ? std::string(s.c_str()) : s;
				std::u32string cps; std::vector<int> at;
				model(t, cps, at);
				current.what = e.what; current.subject = t;
				SeqRes a, b;
				std::string copy = t; copy += '\0'; // zero-terminated for the form that needs it
				allow_cpu(8);
				e.u8(a, copy.data(), t.size());
				e.u32(b, cps.data(), cps.size());
				allow_cpu(0);
				++evals; malformed += cps.find(U'\xFFFD') != std::u32string::npos; nonascii += cps.size() != t.size();
				for (auto & x: b) hits += x.ok;
				results += long(b.size());
				for (auto & x: b) if (x.ok) for (int i = 0; i < x.n; ++i) for (int & y: x.s[i]) if (y >= 0) y = at[size_t(y)];
				bool same = a.size() == b.size();
				for (size_t i = 0; same && i < a.size(); ++i) {
					same = a[i].ok == b[i].ok && a[i].n == b[i].n;
					for (int j = 0; same && a[i].ok && j < a[i].n; ++j) same = a[i].s[j][0] == b[i].s[j][0] && a[i].s[j][1] == b[i].s[j][1];
				}
				if (!same && viol++ < 3) printf("{\"violation\":\"UTF-8 differs from its code points\",\"pattern\":%s,\"flags\":%d,\"what\":\"%s\",\"subject\":%s,\"got\":\"%s\",\"expected\":\"%s\"}\n", jstr(k.pattern).c_str(), k.flags, e.what, jstr(t).c_str(), show(a).c_str(), show(b).c_str());
			}
		}
		printf("{\"case\":%s,\"i\":%zu,\"evals\":%ld,\"hits\":%ld,\"results\":%ld,\"malformed\":%ld,\"nonascii\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, evals, hits, results, malformed, nonascii, viol);
	}
	printf("{\"done\":%zu}\n", utf_case_count);
}
