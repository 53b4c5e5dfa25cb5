// P27: fixed strings built at run time from units the compiler has never seen, against a decoder of our own
#include <ctll.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <string>
#include <unordered_set>
#include <vector>
namespace mon {
using Rng = std::mt19937_64;
using Text = std::vector<char32_t>;
struct Decoded { bool well; Text text; };

inline Decoded decode8(const std::vector<unsigned> & u) {
	Decoded d{true, {}};
	for (size_t i = 0; i < u.size();) {
		unsigned b = u[i] & 0xFF;
		int n = b < 0x80 ? 0 : b >= 0xC2 && b <= 0xDF ? 1 : b >= 0xE0 && b <= 0xEF ? 2 : b >= 0xF0 && b <= 0xF4 ? 3 : -1;
		if (n < 0 || i + n >= u.size()) return {false, {}};
		char32_t v = n == 0 ? b : b & (0x3F >> n);
		for (int k = 1; k <= n; ++k) {
			unsigned t = u[i + k] & 0xFF, lo = 0x80, hi = 0xBF;  // table 3-7 of the Unicode standard
			if (k == 1) { if (b == 0xE0) lo = 0xA0; if (b == 0xED) hi = 0x9F; if (b == 0xF0) lo = 0x90; if (b == 0xF4) hi = 0x8F; }
			if (t < lo || t > hi) return {false, {}};
			v = v * 64 + (t - 0x80);
		}
		d.text.push_back(v);
		i += n + 1;
	}
	return d;
}
inline Decoded decode16(const std::vector<unsigned> & u) {
	Decoded d{true, {}};
	for (size_t i = 0; i < u.size(); ++i) {
		unsigned a = u[i] & 0xFFFF;
		if (a >= 0xDC00 && a < 0xE000) return {false, {}};
		if (a >= 0xD800 && a < 0xDC00) {
			if (i + 1 == u.size()) return {false, {}};
			unsigned b = u[++i] & 0xFFFF;
			if (b < 0xDC00 || b >= 0xE000) return {false, {}};
			d.text.push_back(0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00));
		} else d.text.push_back(a);
	}
	return d;
}
template <typename C> constexpr const char * kind() {
	if (std::is_same_v<C, char>) return "char";
	if (std::is_same_v<C, wchar_t>) return "wchar_t";
	if (std::is_same_v<C, char16_t>) return "char16_t";
	if (std::is_same_v<C, char32_t>) return "char32_t";
	return "char8_t";
}
template <typename C> constexpr int encoding() {  // 8, 16, or 32: a character each
#ifdef CTRE_STRING_IS_UTF8
	if (std::is_same_v<C, char>) return 8;
#endif
	if (std::is_same_v<C, char> || std::is_same_v<C, wchar_t> || std::is_same_v<C, char32_t>) return 32;
	return std::is_same_v<C, char16_t> ? 16 : 8;
}
inline char32_t any_char(Rng & r) {
	static const char32_t edge[] = {0, 1, 0x41, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF};
	if (r() % 3 == 0) return edge[r() % (sizeof(edge) / sizeof(edge[0]))];
	for (;;) {
		char32_t c = char32_t(r() % (r() % 2 ? 0x3000 : 0x110000));
		if (c < 0xD800 || c > 0xDFFF) return c;
	}
}
inline void put(std::vector<unsigned> & o, char32_t c, int enc, int len = 0) {
	if (enc == 16) {
		if (c < 0x10000) o.push_back(c); else { c -= 0x10000; o.push_back(0xD800 + (c >> 10)); o.push_back(0xDC00 + (c & 0x3FF)); }
	} else if (enc == 8) {
		int n = len ? len : c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
		if (n == 1) { o.push_back(c & 0xFF); return; }
		static const unsigned lead[] = {0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC};
		o.push_back(lead[n] | (unsigned(c >> (6 * (n - 1))) & (0x7Fu >> n)));
		for (int k = n - 2; k >= 0; --k) o.push_back(0x80 | (unsigned(c >> (6 * k)) & 0x3F));
	} else o.push_back(c);
}
template <typename C> std::vector<unsigned> any_units(Rng & r, size_t n) {
	constexpr int enc = encoding<C>();
	std::vector<unsigned> o;
	while (o.size() < n) {
		switch (enc == 32 ? 0 : r() % 24) {
			default: put(o, any_char(r), enc); break;
			case 1: put(o, 0xD800 + char32_t(r() % 0x800), enc); break;           // a surrogate by itself
			case 2: if (enc == 8) put(o, char32_t(r() % 0x10000), enc, 2 + int(r() % 5)); else o.push_back(unsigned(r())); break;  // overlong, or too long
			case 3: if (enc == 8) put(o, 0x110000 + char32_t(r() % 0x100000), enc, 4); else o.push_back(unsigned(0xD800 + r() % 0x400)); break;  // out of range
			case 4: o.push_back(unsigned(r())); break;
		}
	}
	if (o.size() > n && r() % 4) {  // mostly cut at a character
		o.clear();
		while (o.size() < n) {
			std::vector<unsigned> one;
			put(one, any_char(r), enc);
			if (o.size() + one.size() <= n) o.insert(o.end(), one.begin(), one.end());
		}
	}
	o.resize(n);
	if (enc != 32 && r() % 6 == 0) o[r() % n] = unsigned(r());
	if (enc != 32 && r() % 12 == 0) o[n - 1] = enc == 8 ? 0xC2 + r() % 0x33 : 0xD800 + r() % 0x400;  // truncated
	return o;
}

struct Tally { std::unordered_set<std::string> seen; long strings = 0, well = 0, ill = 0, same = 0, different = 0, bad = 0; };
inline void report(const char * what, const char * type, const std::vector<unsigned> & u, const std::string & got) {
	std::string s;
	for (unsigned x : u) { char b[16]; std::snprintf(b, sizeof b, "%s0x%X", s.empty() ? "" : " ", x); s += b; }
	std::printf("{\"violation\": \"%s\", \"type\": \"%s\", \"units\": \"%s\", \"got\": \"%s\"}\n", what, type, s.c_str(), got.c_str());
	std::fflush(stdout);
}
template <size_t N> std::string show(const ctll::fixed_string<N> & f) {
	std::string s = f.correct() ? "correct" : "incorrect";
	for (char32_t c : f) { char b[16]; std::snprintf(b, sizeof b, " U+%X", unsigned(c)); s += b; }
	return s;
}
template <size_t N> bool holds(const ctll::fixed_string<N> & f, const Text & t) {
	if (f.size() != t.size() || size_t(f.end() - f.begin()) != t.size()) return false;
	size_t i = 0;
	for (char32_t c : f) if (c != t[i] || f[i] != t[i]) return false; else ++i;
	std::basic_string_view<char32_t> v = f;
	return i == t.size() && v.size() == t.size() && std::equal(t.begin(), t.end(), v.begin());
}
template <typename A, typename B> bool same(const A & a, const B & b) { return a.is_same_as(b); }
template <size_t M> ctll::fixed_string<M> of(Text t) {  // padded with units that don't count if t is short
	std::array<char32_t, M> a{};
	for (size_t i = 0; i < M && i < t.size(); ++i) a[i] = t[i];
	ctll::fixed_string<M> f(a);
	return f;
}
template <typename C, size_t N> void one(Rng & r, Tally & t, int pass) {
	const auto u = any_units<C>(r, N);
	const int enc = encoding<C>();
	Decoded d;
	if (enc == 8) d = decode8(u);
	else if (enc == 16) d = decode16(u);
	else { d.well = true; for (unsigned x : u) d.text.push_back(std::is_same_v<C, char> ? x & 0xFF : x); }
	std::array<C, N> a{};
	for (size_t i = 0; i < N; ++i) a[i] = static_cast<C>(u[i]);
	std::unique_ptr<C[]> exact(new C[N]);
	std::copy(a.begin(), a.end(), exact.get());
	C lit[N + 1] = {};
	std::copy(a.begin(), a.end(), lit);
	// three ways to the same string
	const auto f = pass % 3 == 0 ? ctll::fixed_string<N>(a) : pass % 3 == 1 ? ctll::fixed_string<N>(ctll::construct_from_pointer, exact.get()) : ctll::fixed_string<N>(lit);
	++t.strings;
	(d.well ? t.well : t.ill)++;
	auto fail = [&](const char * what, const std::string & got) { if (++t.bad < 5) report(what, kind<C>(), u, got); };
	if (f.correct() != d.well) return fail("correct()", show(f));
	if (f.size() > N) return fail("more characters than units", show(f));
	if (d.well && !holds(f, d.text)) return fail("characters", show(f));
	const ctll::fixed_string<N> copy = f;
	if (copy.correct() != f.correct() || !holds(copy, Text(f.begin(), f.end()))) return fail("copy", show(copy));
	if (t.seen.size() < 400000) t.seen.insert(std::string(reinterpret_cast<const char *>(a.data()), sizeof(C) * N));  // distinct strings
	if (!d.well) return;
	// equal exactly to the strings of the same characters
	const auto wide = of<N>(d.text);
	if (wide.size() == N && d.text.size() == N) {
		if (!same(f, wide) || !same(wide, f)) return fail("is_same_as: the same characters differ", show(wide));
		++t.same;
		Text e = d.text;
		size_t at = r() % N;
		e[at] = r() % 3 ? e[at] ^ (1u << (r() % 8)) : any_char(r);
		const auto other = of<N>(e);
		if (same(f, other) != (e == d.text) || same(other, f) != (e == d.text)) return fail("is_same_as", show(other));
		++t.different;
		e = d.text;
		e.push_back(r() % 2 ? 0 : any_char(r));
		const auto longer = of<N + 1>(e);
		if (same(f, longer) || same(longer, f)) return fail("is_same_as: a longer string", show(longer));
		++t.different;
	}
	if (!same(f, f) || !same(copy, f)) return fail("is_same_as itself", show(f));
	++t.same;
	// the same text in another encoding and capacity
	std::vector<unsigned> w;
	bool fits = true;
	for (char32_t c : d.text) if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) fits = false; else put(w, c, 16);
	if (fits) {
		std::array<char16_t, 2 * N> b{};
		std::copy(w.begin(), w.end(), b.begin());
		const ctll::fixed_string<2 * N> g(b);  // zeros behind
		if (same(f, g) != (w.size() == 2 * N)) return fail("is_same_as a string of another capacity", show(g));
		if (g.size() != 2 * N - (w.size() - d.text.size())) return fail("size of UTF-16", show(g));
		++t.different;
	}
}
template <typename C, size_t... I> void all(Rng & r, Tally & t, int pass, std::index_sequence<I...>) { (one<C, I + 1>(r, t, pass), ...); }
template <typename C> void type(unsigned long seed, int rounds) {
	Rng r(seed * 1000003u + sizeof(C) * 7 + unsigned(kind<C>()[4]));
	Tally t;
	for (int i = 0; i < rounds && t.bad < 5; ++i) all<C>(r, t, i, std::make_index_sequence<9>());
	std::printf("{\"type\": \"%s\", \"strings\": %ld, \"well\": %ld, \"ill\": %ld, \"same\": %ld, \"different\": %ld, \"distinct\": %zu}\n", kind<C>(), t.strings, t.well, t.ill, t.same, t.different, t.seen.size());
}
inline void fuzz(unsigned long seed, int rounds) {
	type<char>(seed, rounds);
	type<wchar_t>(seed, rounds);
	type<char16_t>(seed, rounds);
	type<char32_t>(seed, rounds);
#ifdef __cpp_char8_t
	type<char8_t>(seed, rounds);
#endif
}
}
