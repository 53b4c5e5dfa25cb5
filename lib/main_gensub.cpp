// Sample subjects for patterns: stdin lines "seed<TAB>count<TAB>pattern<TAB>alphabet" (escaped \n, \t, \\), stdout one line per pattern, subjects separated by tabs, code points in hex separated by spaces.
#include "monutil.hpp"
using namespace mu;
static std::string unescape(const std::string & s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i]; } else o += s[i]; } return o; }
int main() {
	std::string line; int c;
	auto field = [&](size_t & at) { size_t e = line.find('\t', at); std::string f = line.substr(at, e == line.npos ? e : e - at); at = e == line.npos ? line.size() : e + 1; return f; };
	while ((c = getchar()) != EOF) {
		if (c != '\n') { line += char(c); continue; }
		size_t at = 0; Rng r(strtoull(field(at).c_str(), nullptr, 10)); size_t count = size_t(atol(field(at).c_str()));
		auto pt = unescape(field(at)); auto alpha = decode(unescape(field(at)));
		line.clear();
		auto p = ref::parse(decode(pt));
		if (!p.ok) { printf("!\n"); continue; }
		std::string ascii; for (auto ch: alpha) if (ch < 0x80) ascii += char(ch);
		if (ascii.empty()) ascii = "ab";
		for (size_t i = 0; i < count; ++i) {
			std::u32string s; std::vector<std::u32string> caps;
			size_t kind = r.below(10);
			if (kind < 8) sample(*p.root, s, ascii, r, caps, 0);
			if (kind >= 6 && kind < 8) { if (s.size() > 20) s.resize(20); s += s.substr(0, s.size() / 2); }
			if (kind == 9 || r.chance(40)) for (size_t n = 1 + r.below(4); n; --n) s.insert(r.below(s.size() + 1), 1, alpha[r.below(alpha.size())]);
			for (auto & ch: s) if (r.chance(5)) ch = alpha[r.below(alpha.size())];
			if (s.size() > 40) s.resize(40);
			for (size_t k = 0; k < s.size(); ++k) printf("%s%x", k ? " " : "", unsigned(s[k]));
			if (i + 1 < count) putchar('\t');
		}
		putchar('\n');
	}
}
