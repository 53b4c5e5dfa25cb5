// Monitor for pattern literals: fixed_string constructed from exactly sized arrays of units of every type,
// compared with independent encoders and well-formedness checks. Runs under address and UB sanitizers.
#include "monutil.hpp"
#include <ctll.hpp>
#include <array>
#include <memory>
#include <utility>
using namespace mu;

static long evals = 0, ill = 0, viol = 0, multi = 0;
static std::string show(const std::u32string & s) { std::string o; char b[16]; for (auto c: s) { snprintf(b, sizeof b, "%X ", unsigned(c)); o += b; } return o; }
template <typename T> std::string units(const std::basic_string<T> & s) { std::string o; char b[16]; for (auto c: s) { snprintf(b, sizeof b, "%X ", unsigned(std::make_unsigned_t<std::conditional_t<std::is_same_v<T, char>, char, uint32_t>>(c))); o += b; } return o; }
template <typename T> const char * nameof() {
	if constexpr (std::is_same_v<T, char>) return "char";
#ifdef __cpp_char8_t
	else if constexpr (std::is_same_v<T, char8_t>) return "char8_t";
#endif
	else if constexpr (std::is_same_v<T, char16_t>) return "char16_t";
	else if constexpr (std::is_same_v<T, char32_t>) return "char32_t";
	else return "wchar_t";
}

struct Got { bool correct; std::u32string text; bool consistent; };
template <typename F> Got take(const F & f) {
	Got g{f.correct(), {}, true};
	for (auto c: f) g.text += c;
	std::u32string_view v = f;
	bool same = f.size() == g.text.size() && v == std::u32string_view(g.text);
	for (size_t i = 0; i < f.size(); ++i) same = same && f[i] == g.text[i];
	auto copy = f;
	same = same && copy.size() == f.size() && copy.correct() == f.correct() && std::u32string_view(copy) == v;
	g.consistent = same;
	return g;
}
template <typename T, size_t N> void construct(const std::basic_string<T> & in, std::vector<Got> & out) {
	if constexpr (N == 0) { const T lit[1] = {}; ctll::fixed_string f(lit); out.push_back(take(f)); }
	else {
		auto a = std::make_unique<std::array<T, N>>(); // nothing readable behind it
		std::copy(in.begin(), in.end(), a->begin());
		ctll::fixed_string f(*a);
		out.push_back(take(f));
		struct Lit { T text[N + 1]; };
		auto l = std::make_unique<Lit>();
		std::copy(in.begin(), in.end(), l->text);
		l->text[N] = 0;
		ctll::fixed_string g(l->text);
		out.push_back(take(g));
		if constexpr (N > 1) if (!f.is_same_as(g) || !g.is_same_as(f)) out.back().consistent = false;
		// what stands where the terminator should be never shows
		l->text[N] = T(0x80 + (in.size() * 37) % 0x40);
		ctll::fixed_string<N> h(l->text);
		out.push_back(take(h));
		l->text[N] = T(sizeof(T) == 2 ? 0xDC00 : 0x41);
		ctll::fixed_string<N> i(l->text);
		out.push_back(take(i));
	}
}
constexpr size_t max_n = 14;
template <typename T, size_t... I> void dispatch(const std::basic_string<T> & in, std::vector<Got> & out, std::index_sequence<I...>) {
	(void)((in.size() == I && (construct<T, I>(in, out), true)) || ...);
}
// expected: text and whether it is well formed; the text of ill-formed input is only required not to depend on what follows
template <typename T> void one(const std::basic_string<T> & in, bool well, const std::u32string & text) {
	if (in.size() > max_n) return;
	current.what = nameof<T>();
	current.subject = units(in);
	std::vector<Got> got;
	dispatch(in, got, std::make_index_sequence<max_n + 1>());
	++evals; ill += !well; multi += in.size() != text.size();
	auto report = [&](const char * what, const Got & g) { if (viol++ < 20) printf("{\"violation\":\"literal\",\"pattern\":\"units %s\",\"what\":\"%s %s\",\"got\":\"%s correct=%d\",\"want\":\"%s correct=%d\"}\n", units(in).c_str(), nameof<T>(), what, show(g.text).c_str(), g.correct, show(text).c_str(), well); };
	for (auto & g: got) {
		if (!g.consistent) report("accessors of fixed_string disagree", g);
		if (g.correct != well) report(well ? "well-formed text flagged" : "ill-formed text not flagged", g);
		if (well && g.text != text) report("decoded differently", g);
		if (g.text.size() > in.size()) report("more characters than units", g);
		if (g.text != got[0].text || g.correct != got[0].correct) report("depends on what follows the text", g);
	}
}
static bool utf8(const std::string & s, std::u32string & out) { // well-formedness by the table of the Unicode standard (3-7)
	auto at = [&](size_t i) { return i < s.size() ? (unsigned char)s[i] : 0; };
	for (size_t i = 0; i < s.size();) {
		unsigned a = at(i), b = at(i + 1), c = at(i + 2), d = at(i + 3);
		auto t = [](unsigned x) { return x >= 0x80 && x <= 0xBF; };
		if (a < 0x80) { out += char32_t(a); i += 1; }
		else if (a >= 0xC2 && a <= 0xDF && t(b)) { out += char32_t((a & 31) << 6 | (b & 63)); i += 2; }
		else if (a >= 0xE0 && a <= 0xEF && t(b) && t(c) && (a != 0xE0 || b >= 0xA0) && (a != 0xED || b <= 0x9F)) { out += char32_t((a & 15) << 12 | (b & 63) << 6 | (c & 63)); i += 3; }
		else if (a >= 0xF0 && a <= 0xF4 && t(b) && t(c) && t(d) && (a != 0xF0 || b >= 0x90) && (a != 0xF4 || b <= 0x8F)) { out += char32_t((a & 7) << 18 | (b & 63) << 12 | (c & 63) << 6 | (d & 63)); i += 4; }
		else return false;
	}
	return true;
}
static bool utf16(const std::u16string & s, std::u32string & out) {
	for (size_t i = 0; i < s.size(); ++i) {
		char16_t a = s[i];
		if (a >= 0xD800 && a <= 0xDBFF) { if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF) return false; out += char32_t(0x10000 + ((a - 0xD800) << 10) + (s[i + 1] - 0xDC00)); ++i; }
		else if (a >= 0xDC00 && a <= 0xDFFF) return false;
		else out += char32_t(a);
	}
	return true;
}
static void text8(const std::string & s) {
	std::u32string o; bool well = utf8(s, o);
#ifdef __cpp_char8_t
	one(std::u8string(s.begin(), s.end()), well, o);
#endif
#ifdef CTRE_STRING_IS_UTF8
	one(s, well, o);
#else
	bool ascii = true; for (unsigned char c: s) ascii = ascii && c < 0x80;
	if (ascii) one(s, true, widen(s));
#endif
}
static void text16(const std::u16string & s) { std::u32string o; bool well = utf16(s, o); one(s, well, o); }
static void text32(const std::u32string & s) {
	one(s, true, s);
	one(std::wstring(s.begin(), s.end()), true, s);
	text8(encode8(s));
	std::u16string w;
	for (auto c: s) if (c < 0x10000) w += char16_t(c); else { w += char16_t(0xD800 + ((c - 0x10000) >> 10)); w += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); }
	text16(w);
}
int main(int argc, char ** argv) {
	install();
	Rng r(uint64_t(atol(argv[1])));
	long rounds = atol(argv[2]);
	if (from_case(argc, argv) > 0) { printf("{\"done\":1}\n"); return 0; }
	allow_cpu(600);
	current.pattern = "fixed_string";
	text32(U"");
	for (char32_t c = 1; c < 0x110000; c += (c < 0x3000 || (c >= 0xD700 && c < 0xE100) || c > 0x10F000) ? 1 : 7) if (c < 0xD800 || c > 0xDFFF) text32(std::u32string(1, c));
	for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) text8(std::string{char(a), char(b)});
	for (int a = 0x80; a < 256; ++a) text8(std::string{char(a)});
	static const unsigned char rep[] = {0, 'a', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF8, 0xFC, 0xFF};
	for (auto a: rep) for (auto b: rep) for (auto c: rep) { text8(std::string{char(a), char(b), char(c)}); for (auto d: rep) text8(std::string{char(a), char(b), char(c), char(d)}); }
	static const char16_t rep16[] = {0, u'a', 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF};
	for (auto a: rep16) { text16(std::u16string{a}); for (auto b: rep16) { text16(std::u16string{a, b}); for (auto c: rep16) { text16(std::u16string{a, b, c}); for (auto d: rep16) text16(std::u16string{a, b, c, d}); } } }
	auto rnd = [&]() -> char32_t { switch (r.below(6)) { case 0: case 1: return char32_t(r.below(0x80)); case 2: return char32_t(0x80 + r.below(0x780)); case 3: { char32_t c = char32_t(0x800 + r.below(0xF800)); return c >= 0xD800 && c < 0xE000 ? U'\u20AC' : c; } default: return char32_t(0x10000 + r.below(0x100000)); } };
	for (long k = 0; k < rounds; ++k) {
		std::u32string s; size_t n = r.below(12);
		for (size_t i = 0; i < n; ++i) s += rnd();
		text32(s);
		std::string t = encode8(s);
		if (!t.empty()) switch (r.below(4)) { // damaged
			case 0: t.erase(r.below(t.size()), 1); break;
			case 1: t[r.below(t.size())] = char(r.next()); break;
			case 2: t.insert(r.below(t.size() + 1), 1, char(0x80 + r.below(128))); break;
			case 3: t.resize(r.below(t.size())); break;
		}
		text8(t);
		std::u16string w; for (size_t i = 0; i < n; ++i) w += r.chance(50) ? char16_t(0xD800 + r.below(0x800)) : char16_t(r.next());
		text16(w);
	}
	printf("{\"case\":\"fixed_string\",\"i\":0,\"evals\":%ld,\"ill\":%ld,\"multi\":%ld}\n{\"done\":1}\n", evals, ill, multi);
}
