// Shared by the monitors' main programs: subjects, JSON output, watchdog.
#pragma once
#include "ref.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace mu {

struct Rng {
	uint64_t x;
	explicit Rng(uint64_t seed): x(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull; }
	size_t below(size_t n) { return n ? size_t((next() >> 11) % n) : 0; }
	bool chance(unsigned percent) { return below(100) < percent; }
};

inline std::u32string decode(const std::string & s) { // well-formed UTF-8 only
	std::u32string r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = (unsigned char)s[i];
		int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
		char32_t v = n == 0 ? c : c & (0x3F >> n);
		for (int k = 1; k <= n; ++k) v = (v << 6) | ((unsigned char)s[i + size_t(k)] & 0x3F);
		r += v; i += size_t(n) + 1;
	}
	return r;
}
inline void put8(std::string & o, char32_t c) {
	if (c < 0x80) o += char(c);
	else if (c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 0x3F)); }
	else if (c < 0x10000) { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 0x3F)); o += char(0x80 | (c & 0x3F)); }
	else { o += char(0xF0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 0x3F)); o += char(0x80 | ((c >> 6) & 0x3F)); o += char(0x80 | (c & 0x3F)); }
}
inline std::string encode8(const std::u32string & s) { std::string r; for (auto c: s) put8(r, c); return r; }
inline std::u32string widen(const std::string & s) { std::u32string r; for (char c: s) r += char32_t((unsigned char)c); return r; }

inline std::string jstr(const std::string & s) {
	std::string o = "\"";
	char buf[16];
	for (unsigned char c: s) {
		if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
		else if (c < 0x20 || c >= 0x7F) { snprintf(buf, sizeof buf, "\\u%04x", c); o += buf; }
		else o += char(c);
	}
	return o + "\"";
}

inline bool large = false; // long subjects, many iterations (families whose point is size)

// strings sampled from a pattern: random members of (a superset of) its language
inline void sample(const ref::Node & n, std::u32string & out, const std::string & alphabet, Rng & r, std::vector<std::u32string> & caps, int depth) {
	using namespace ref;
	if (out.size() > (large ? 900 : 400) || depth > 200) return;
	auto rnd = [&] { return char32_t((unsigned char)alphabet[r.below(alphabet.size())]); };
	switch (n.k) {
		case Char: { char32_t c = n.c; if (r.chance(15) && ((c | 0x20) >= 'a' && (c | 0x20) <= 'z')) c ^= 0x20; out += r.chance(85) ? n.c : c; break; }
		case Any: out += rnd(); break;
		case Set: {
			std::u32string can;
			for (char ch: alphabet) { char32_t c = (unsigned char)ch; bool any = false; for (auto & i: n.items) any = any || item_matches(i, c, false); if (any != n.neg) can += c; }
			if (can.empty() && !n.neg && !n.items.empty()) { auto & i = n.items[r.below(n.items.size())]; if (i.t == Item::Range && i.a <= i.b) can += i.a + char32_t(r.below(size_t(i.b - i.a) + 1)); }
			out += can.empty() ? rnd() : can[r.below(can.size())];
			break;
		}
		case Seq: for (auto & c: n.ch) sample(*c, out, alphabet, r, caps, depth + 1); break;
		case Alt: sample(*n.ch[r.below(n.ch.size())], out, alphabet, r, caps, depth + 1); break;
		case Cap: { size_t b = out.size(); sample(*n.ch[0], out, alphabet, r, caps, depth + 1); if (caps.size() <= size_t(n.id)) caps.resize(size_t(n.id) + 1); caps[size_t(n.id)] = b <= out.size() ? out.substr(b) : U""; break; }
		case Rep: {
			int hi = n.max < 0 || n.max > 2000 ? std::min(n.min, 2000) + int(r.below(r.chance(large ? 35 : 10) ? (large ? (r.chance(12) ? 330 : 70) : 30) : 4)) : n.max + (r.chance(n.max > 8 ? 35 : 10) ? 1 : 0);
			int lo = r.chance(10) ? (n.min > 0 ? n.min - 1 : 0) : n.min;
			int k = lo >= hi ? lo : hi - lo > 8 && r.chance(50) ? (r.chance(50) ? lo + int(r.below(2)) : hi - int(r.below(2))) : lo + int(r.below(size_t(hi - lo) + 1));
			for (int i = 0; i < k && out.size() <= 900 && i < 1200; ++i) sample(*n.ch[0], out, alphabet, r, caps, depth + 1);
			break;
		}
		case Atomic: sample(*n.ch[0], out, alphabet, r, caps, depth + 1); break;
		case Look: if (r.chance(n.neg ? 15 : 40)) sample(*n.ch[0], out, alphabet, r, caps, depth + 1); break;
		case BackRef: if (caps.size() > size_t(n.id)) out += caps[size_t(n.id)]; break;
		case Bol: case Eol: case SubjEndLine: if (r.chance(50) && alphabet.find('\n') != std::string::npos) out += U'\n'; break;
		default: break;
	}
}

inline std::string narrow(const std::u32string & s) { std::string r; for (auto c: s) r += char(c < 0x80 ? c : '?'); return r; }

inline std::vector<std::string> subjects(const ref::Pattern & p, const std::string & alphabet, size_t exhaustive_budget, size_t samples, size_t randoms, Rng & r) {
	std::vector<std::string> out;
	std::set<std::string> seen;
	auto add = [&](const std::string & s) { if (seen.insert(s).second) out.push_back(s); };
	// exhaustive: all strings up to a length over the first letters of the alphabet
	std::vector<std::string> layer{""};
	add("");
	size_t total = 1;
	while (!alphabet.empty() && total + layer.size() * alphabet.size() <= exhaustive_budget) {
		std::vector<std::string> nextl;
		for (auto & l: layer) for (char c: alphabet) nextl.push_back(l + c);
		for (auto & l: nextl) add(l);
		total += nextl.size();
		layer.swap(nextl);
	}
	for (size_t i = 0; i < samples; ++i) {
		std::u32string o; std::vector<std::u32string> caps;
		sample(*p.root, o, alphabet, r, caps, 0);
		std::string s = narrow(o);
		auto junk = [&](size_t n) { std::string j; for (size_t k = 0; k < n; ++k) j += alphabet[r.below(alphabet.size())]; return j; };
		switch (r.below(6)) {
			case 0: case 1: break;
			case 2: s = junk(r.below(4)) + s; break;
			case 3: s = s + junk(r.below(4)); break;
			case 4: s = junk(r.below(6)) + s + junk(r.below(6)); break;
			case 5: { std::u32string o2; sample(*p.root, o2, alphabet, r, caps, 0); s += (r.chance(50) ? junk(r.below(3)) : "") + narrow(o2); break; }
		}
		if (large && r.chance(10)) s = junk(r.below(60)) + s + junk(r.below(40));
		if (r.chance(30) && !s.empty()) { // a small edit
			size_t at = r.below(s.size());
			switch (r.below(3)) { case 0: s.erase(at, 1); break; case 1: s[at] = alphabet[r.below(alphabet.size())]; break; case 2: s.insert(at, 1, alphabet[r.below(alphabet.size())]); break; }
		}
		add(s);
	}
	for (size_t i = 0; i < randoms; ++i) {
		std::string s;
		if (large && r.chance(40)) { // long runs
			for (size_t runs = 1 + r.below(4); runs; --runs) s += std::string(r.below(r.chance(20) ? (r.chance(30) ? 330 : 90) : 30), alphabet[r.below(alphabet.size())]);
			add(s); continue;
		}
		size_t n = large ? r.below(r.chance(30) ? 160 : r.chance(50) ? 40 : 14) : r.below(r.chance(10) ? 60 : 14);
		for (size_t k = 0; k < n; ++k) s += alphabet[r.below(alphabet.size())];
		add(s);
	}
	return out;
}

// ---- what is being evaluated right now, for the watchdog and crash reports
inline struct Current { size_t index = 0; const char * pattern = ""; const char * what = ""; std::string subject; } current;

inline void die(const char * kind) {
	static char buf[8192];
	std::string j = std::string("{\"violation\":\"") + kind + "\",\"i\":" + std::to_string(current.index) + ",\"pattern\":" + jstr(current.pattern) + ",\"what\":" + jstr(current.what) + ",\"subject\":" + jstr(current.subject.substr(0, 400)) + "}\n";
	size_t n = j.size() < sizeof buf ? j.size() : sizeof buf;
	memcpy(buf, j.data(), n);
	fflush(stdout);
	if (write(1, buf, n) < 0) { }
	_exit(0);
}
inline void on_signal(int sig) { die(sig == SIGPROF ? "hang" : sig == SIGSEGV || sig == SIGBUS ? "crash" : "abort"); }
inline void install(bool crashes = true) {
	static char stack[1 << 16];
	stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	sigaction(SIGPROF, &sa, nullptr);
	if (crashes) { sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); }
}
inline size_t from_case(int argc, char ** argv) {
	for (int i = 1; i < argc; ++i) if (strncmp(argv[i], "--from=", 7) == 0) return size_t(atol(argv[i] + 7));
	return 0;
}
// CPU-time allowance for the next stretch of work
inline void allow_cpu(int seconds) { itimerval v{}; v.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &v, nullptr); }

// results any of which is a correct answer (see DESIGN.md: "one way" rule for repeated groups)
struct Expected { ref::Result r[12]; int n = 0; bool unknown = false; bool strict = true; };
inline Expected expected(const ref::Pattern & p, ref::Op op, const std::u32string & s, bool ci, bool ml, size_t from = 0, bool non_empty = false, long budget = 60000) {
	Expected e;
	if (large) budget *= 2;
	for (int v = 0; v < 12; ++v) {
		ref::Opts o; o.ci = ci; o.multiline = ml; o.budget = budget;
		o.atomic_iterations = v % 3 == 1; o.perl_empty = v % 3 == 2; o.forward_behind = v % 6 >= 3; o.collapse = v >= 6;
		if ((o.forward_behind && !p.has_behind) || (o.collapse && !p.has_collapsible)) continue;
		auto r = ref::run(p, op, s, o, from, non_empty);
		if (r.unknown) { e.unknown = true; return e; }
		bool known = false;
		for (int i = 0; i < e.n; ++i) known = known || e.r[i] == r;
		if (!known) e.r[e.n++] = r;
	}
	e.strict = e.n == 1;
	return e;
}

}
