#include "ref.hpp"
#include <stdexcept>

namespace ref {

bool (*property_hook)(const std::string &, char32_t) = nullptr;

// ---------------------------------------------------------------- parser
namespace {
struct Parser {
	const std::u32string & t;
	size_t p = 0;
	Pattern out;
	explicit Parser(const std::u32string & text): t(text) { }
	[[noreturn]] void fail(const char * why) { throw std::runtime_error(std::string(why) + " at " + std::to_string(p)); }
	bool more() const { return p < t.size(); }
	char32_t peek() const { return t[p]; }
	bool eat(char32_t c) { if (more() && peek() == c) { ++p; return true; } return false; }
	void need(char32_t c) { if (!eat(c)) fail("expected character"); }
	bool back = false;
	NP mk(Kind k) { auto n = std::make_shared<Node>(); n->k = k; n->back = back; return n; }
	NP chr(char32_t c) { auto n = mk(Char); n->c = c; return n; }
	
	NP alternatives() {
		std::vector<NP> alts;
		alts.push_back(sequence());
		while (eat('|')) alts.push_back(sequence());
		if (alts.size() == 1) return alts[0];
		auto n = mk(Alt); n->ch = alts; return n;
	}
	NP sequence() {
		auto n = mk(Seq);
		while (more() && peek() != '|' && peek() != ')') {
			NP a = atom();
			n->ch.push_back(quantify(a));
		}
		return n;
	}
	int number() {
		if (!more() || peek() < '0' || peek() > '9') fail("number");
		int v = 0;
		while (more() && peek() >= '0' && peek() <= '9') { v = std::min(v, 100000000) * 10 + int(peek() - '0'); ++p; } // above any length
		return v;
	}
	NP quantify(NP a) {
		if (!more()) return a;
		int mn, mx; bool exact = false;
		if (eat('*')) { mn = 0; mx = -1; }
		else if (eat('+')) { mn = 1; mx = -1; }
		else if (eat('?')) { mn = 0; mx = 1; }
		else if (eat('{')) {
			mn = number();
			if (eat('}')) { mx = mn; exact = true; }
			else { need(','); if (eat('}')) mx = -1; else { mx = number(); need('}'); } }
		} else return a;
		auto n = mk(Rep); n->min = mn; n->max = mx; n->ch = {a};
		if (!exact) { if (eat('?')) n->rk = Lazy; else if (eat('+')) n->rk = Possessive; }
		NP in = a;
		while (in->k == Seq && in->ch.size() == 1) in = in->ch[0];
		if (mn == 0 && mx == 1 && n->rk == Greedy && in->k == Rep && in->rk == Lazy && in->min == 0 && in->max == 1) n->collapsible = out.has_collapsible = true;
		return n;
	}
	static int hexval(char32_t c) {
		if (c >= '0' && c <= '9') return int(c - '0');
		if (c >= 'a' && c <= 'f') return int(c - 'a') + 10;
		if (c >= 'A' && c <= 'F') return int(c - 'A') + 10;
		return -1;
	}
	char32_t hex(size_t digits) {
		char32_t v = 0;
		if (eat('{')) {
			size_t n = 0;
			while (more() && peek() != '}') { int h = hexval(peek()); if (h < 0) fail("hex"); v = v * 16 + char32_t(h); ++p; ++n; }
			if (!n) fail("hex");
			need('}');
		} else {
			for (size_t i = 0; i < digits; ++i) { if (!more() || hexval(peek()) < 0) fail("hex"); v = v * 16 + char32_t(hexval(peek())); ++p; }
		}
		return v;
	}
	// after a backslash: a single character usable in a range
	bool escape_char(char32_t & c) {
		if (!more()) fail("escape");
		char32_t e = peek();
		switch (e) {
			case 'u': ++p; c = hex(4); return true;
			case 'x': ++p; c = hex(2); return true;
			case 'n': ++p; c = 0x0A; return true;
			case 't': ++p; c = 0x09; return true;
			case 'r': ++p; c = 0x0D; return true;
			case '0': ++p; c = 0; return true;
			case 'a': ++p; c = 0x07; return true;
			case 'e': ++p; c = 0x1B; return true;
			case 'f': ++p; c = 0x0C; return true;
			default: break;
		}
		for (char32_t s: U".[]{}()\\*+?|^$-/\"<>") if (s && s == e) { ++p; c = e; return true; }
		return false;
	}
	bool escape_class(Item & it) {
		char32_t e = peek();
		it.t = Item::Class;
		switch (e) {
			case 'd': it.name = "d"; break;
			case 'D': it.name = "d"; it.neg = true; break;
			case 'w': it.name = "w"; break;
			case 'W': it.name = "w"; it.neg = true; break;
			case 's': it.name = "s"; break;
			case 'S': it.name = "s"; it.neg = true; break;
			case 'v': it.name = "v"; break;
			case 'V': it.name = "v"; it.neg = true; break;
			case 'h': it.name = "h"; break;
			case 'H': it.name = "h"; it.neg = true; break;
			case 'N': it.name = "newline"; it.neg = true; break;
			case 'p': case 'P': {
				++p; need('{'); it.t = Item::Prop; it.neg = e == 'P';
				while (more() && peek() != '}') { it.name += char(peek()); ++p; }
				need('}');
				return true;
			}
			default: return false;
		}
		++p;
		return true;
	}
	std::string group_name() {
		std::string n;
		while (more() && is_word(peek())) { n += char(peek()); ++p; }
		if (n.empty() || (n[0] >= '0' && n[0] <= '9')) fail("name");
		return n;
	}
	NP backref(int id) { auto n = mk(BackRef); n->id = id; if (id < 0 || id > out.groups) fail("reference"); return n; }
	NP escape() {
		char32_t c;
		if (escape_char(c)) return chr(c);
		Item it;
		if (escape_class(it)) { auto n = mk(Set); n->items = {it}; return n; }
		char32_t e = peek(); ++p;
		switch (e) {
			case 'A': return mk(SubjBegin);
			case 'z': return mk(SubjEnd);
			case 'Z': return mk(SubjEndLine);
			case 'b': return mk(WordB);
			case 'B': return mk(NotWordB);
			case 'g': {
				need('{');
				NP r;
				if (eat('-')) { int k = number(); if (k < 1 || k > out.groups) fail("reference"); r = backref(out.groups + 1 - k); }
				else if (more() && peek() >= '0' && peek() <= '9') { int k = number(); r = backref(k); }
				else { auto nm = group_name(); auto f = out.names.find(nm); if (f == out.names.end()) fail("reference"); r = backref(f->second); }
				need('}');
				return r;
			}
			default: break;
		}
		if (e >= '1' && e <= '9') return backref(int(e - '0'));
		fail("unknown escape");
	}
	bool posix(Item & it) {
		if (!(t.compare(p, 2, U"[:") == 0)) return false;
		p += 2;
		it.t = Item::Class;
		it.neg = eat('^');
		while (more() && peek() >= 'a' && peek() <= 'z') { it.name += char(peek()); ++p; }
		need(':'); need(']');
		it.name = ":" + it.name;
		class_matches(it.name, 'a'); // throws if it does not exist
		return true;
	}
	NP set() {
		auto n = mk(Set);
		n->neg = eat('^');
		bool first = true;
		while (true) {
			if (!more()) fail("set");
			if (peek() == ']') { if (first && !n->neg) fail("empty set"); ++p; return n; }
			Item it;
			bool single = false;
			if (posix(it)) {
			} else if (eat('\\')) {
				char32_t c;
				if (escape_char(c)) { it.a = it.b = c; single = true; }
				else if (!escape_class(it)) fail("escape in set");
			} else {
				char32_t c = peek();
				if (c == '[' || c == '-' || (c == '^' && first && !n->neg)) fail("character in set");
				++p; it.a = it.b = c; single = true;
			}
			if (single && more() && peek() == '-') {
				++p;
				if (!more()) fail("range");
				char32_t c;
				if (eat('\\')) { if (!escape_char(c)) fail("range end"); }
				else { c = peek(); if (c == '[' || c == ']' || c == '-') fail("range end"); ++p; }
				it.b = c;
			}
			n->items.push_back(it);
			first = false;
		}
	}
	NP atom() {
		char32_t c = peek();
		switch (c) {
			case '*': case '+': case '?': case '{': case '}': fail("nothing to repeat");
			case '.': ++p; return mk(Any);
			case '^': ++p; return mk(Bol);
			case '$': ++p; return mk(Eol);
			case '[': ++p; return set();
			case '\\': ++p; return escape();
			case '(': ++p; return group();
			default: ++p; return chr(c);
		}
	}
	NP group() {
		if (!eat('?')) {
			auto n = mk(Cap); n->id = ++out.groups; n->ch = {alternatives()}; need(')'); return n;
		}
		if (!more()) fail("group");
		char32_t c = peek();
		auto look = [&](bool behind, bool neg) { auto n = mk(Look); n->behind = behind; n->neg = neg; bool b0 = back; back = behind; if (behind) out.has_behind = true; n->ch = {alternatives()}; back = b0; need(')'); return n; };
		if (c == ':') { ++p; NP n = alternatives(); need(')'); auto s = mk(Seq); s->ch = {n}; return s; }
		if (c == '>') { ++p; auto n = mk(Atomic); n->ch = {alternatives()}; need(')'); return n; }
		if (c == '=') { ++p; return look(false, false); }
		if (c == '!') { ++p; return look(false, true); }
		if (c == '<') {
			++p;
			if (eat('=')) return look(true, false);
			if (eat('!')) return look(true, true);
			auto n = mk(Cap); n->name = group_name(); need('>');
			n->id = ++out.groups; out.names[n->name] = n->id;
			n->ch = {alternatives()}; need(')'); return n;
		}
		auto s = mk(Seq);
		while (more() && peek() != ')') {
			char32_t m = peek();
			if (m != 'i' && m != 'c' && m != 's' && m != 'm') fail("mode");
			++p; auto n = mk(Mode); n->mode = char(m); s->ch.push_back(n);
		}
		need(')');
		if (s->ch.empty()) fail("mode");
		return s;
	}
};
}

Pattern parse(const std::u32string & text) {
	Parser ps(text);
	try {
		NP r = ps.alternatives();
		if (ps.more()) ps.fail("trailing text");
		ps.out.root = r;
		ps.out.ok = true;
	} catch (const std::exception & e) { ps.out.ok = false; ps.out.error = e.what(); }
	return ps.out;
}

// ---------------------------------------------------------------- character classes
bool class_matches(const std::string & n, char32_t c) {
	auto in = [c](char32_t a, char32_t b) { return c >= a && c <= b; };
	bool lower = in('a', 'z'), upper = in('A', 'Z'), digit = in('0', '9');
	if (n == "d" || n == ":digit") return digit;
	if (n == "w" || n == ":word") return is_word(c);
	if (n == "s" || n == ":space") return c == ' ' || in(9, 13);
	if (n == "newline") return c == '\n';
	if (n == "v") return in(0x0A, 0x0D) || c == 0x85 || c == 0x2028 || c == 0x2029;
	if (n == "h") return c == 9 || c == 0x20 || c == 0xA0 || c == 0x1680 || c == 0x180E || in(0x2000, 0x200A) || c == 0x202F || c == 0x205F || c == 0x3000;
	if (n == ":alnum") return lower || upper || digit;
	if (n == ":alpha") return lower || upper;
	if (n == ":ascii") return c < 0x80;
	if (n == ":blank") return c == ' ' || c == '\t';
	if (n == ":cntrl") return c < 0x20 || c == 0x7F;
	if (n == ":graph") return in(0x21, 0x7E);
	if (n == ":lower") return lower;
	if (n == ":print") return in(0x20, 0x7E);
	if (n == ":punct") return in(0x21, 0x7E) && !(lower || upper || digit);
	if (n == ":upper") return upper;
	if (n == ":xdigit") return digit || in('a', 'f') || in('A', 'F');
	throw std::runtime_error("unknown class " + n);
}

static char32_t swapcase(char32_t c) {
	if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) return c ^ 0x20;
	return c;
}

bool item_matches(const Item & it, char32_t c, bool ci) {
	auto raw = [&](char32_t x) {
		if (it.t == Item::Range) return x >= it.a && x <= it.b;
		if (it.t == Item::Class) return class_matches(it.name, x);
		return property_hook ? property_hook(it.name, x) : false;
	};
	bool r = raw(c);
	if (ci && !r && it.t != Item::Prop) r = raw(swapcase(c));
	return r != it.neg;
}

// ---------------------------------------------------------------- matcher
namespace {
struct State { std::vector<std::pair<int, int>> cap; bool ci, ml; };
struct OutOfBudget { };

struct M {
	const std::u32string & s;
	const Opts & o;
	long steps = 0;
	using K = const std::function<bool(size_t, State &)> &;
	
	bool set_matches(const Node & n, char32_t c, bool ci) {
		bool any = false;
		for (auto & i: n.items) any = any || item_matches(i, c, ci);
		return any != n.neg;
	}
	bool backward(const Node & n) const { return n.back && !o.forward_behind; }
	bool end(const Node & n, size_t pos) const { return backward(n) ? pos == 0 : pos >= s.size(); }
	char32_t at(const Node & n, size_t pos) const { return s[backward(n) ? pos - 1 : pos]; }
	size_t step(const Node & n, size_t pos) const { return backward(n) ? pos - 1 : pos + 1; }
	bool seq(const Node & n, size_t i, size_t pos, State & st, K k) {
		if (i == n.ch.size()) return k(pos, st);
		return m(*n.ch[backward(n) ? n.ch.size() - 1 - i : i], pos, st, [&, i](size_t p2, State & s2) { return seq(n, i + 1, p2, s2, k); });
	}
	// first way the node matches from pos; on success st/pos updated. `allow` filters end positions
	bool first(const Node & n, size_t & pos, State & st, const std::function<bool(size_t)> & allow) {
		State tmp = st;
		bool ok = m(n, pos, tmp, [&](size_t p2, State & s2) { if (!allow(p2)) return false; pos = p2; st = s2; return true; });
		return ok;
	}
	bool rep(const Node & n, int i, size_t pos, State & st, K k) {
		if (n.collapsible && o.collapse) return m(*n.ch[0], pos, st, k);
		bool can_more = n.max < 0 || i < n.max;
		auto more = [&]() -> bool {
			if (!can_more) return false;
			if (o.atomic_iterations) {
				size_t p2 = pos; State s2 = st;
				bool mand = i < n.min;
				if (!first(*n.ch[0], p2, s2, [&](size_t e) { return mand || e != pos; })) return false;
				return rep(n, i + 1, p2, s2, k);
			}
			State s0 = st;
			return m(*n.ch[0], pos, s0, [&](size_t p2, State & s2) {
				if (p2 == pos && i >= n.min) return o.perl_empty ? k(p2, s2) : false;
				return rep(n, i + 1, p2, s2, k);
			});
		};
		if (i < n.min) return more();
		if (n.rk == Lazy) {
			State s0 = st;
			if (k(pos, s0)) return true;
			return more();
		}
		if (more()) return true;
		State s0 = st;
		return k(pos, s0);
	}
	bool m(const Node & n, size_t pos, State & st, K k) {
		if (++steps > o.budget) throw OutOfBudget{};
		switch (n.k) {
			case Empty: return k(pos, st);
			case Char: {
				if (end(n, pos)) return false;
				char32_t c = at(n, pos);
				if (c != n.c && !(st.ci && swapcase(c) == n.c)) return false;
				return k(step(n, pos), st);
			}
			case Any:
				if (end(n, pos) || (st.ml && at(n, pos) == '\n')) return false;
				return k(step(n, pos), st);
			case Set:
				if (end(n, pos) || !set_matches(n, at(n, pos), st.ci)) return false;
				return k(step(n, pos), st);
			case Seq: return seq(n, 0, pos, st, k);
			case Alt:
				for (auto & c: n.ch) { State s2 = st; if (m(*c, pos, s2, k)) return true; }
				return false;
			case Cap:
				return m(*n.ch[0], pos, st, [&](size_t p2, State & s2) {
					auto old = s2.cap[size_t(n.id)];
					s2.cap[size_t(n.id)] = backward(n) ? std::pair<int, int>{int(p2), int(pos)} : std::pair<int, int>{int(pos), int(p2)};
					if (k(p2, s2)) return true;
					s2.cap[size_t(n.id)] = old;
					return false;
				});
			case Rep: {
				if (n.max >= 0 && n.min > n.max) return false;
				if (n.rk == Possessive) {
					size_t p2 = pos; State s2 = st; bool ok = false;
					State s0 = st;
					ok = rep(n, 0, pos, s0, [&](size_t e, State & x) { p2 = e; s2 = x; return true; });
					return ok && k(p2, s2);
				}
				return rep(n, 0, pos, st, k);
			}
			case Atomic: {
				size_t p2 = pos; State s2 = st;
				if (!first(*n.ch[0], p2, s2, [](size_t) { return true; })) return false;
				return k(p2, s2);
			}
			case Look: {
				State s2 = st; bool ok = false;
				if (!n.behind || !o.forward_behind) { size_t p2 = pos; ok = first(*n.ch[0], p2, s2, [](size_t) { return true; }); }
				else {
					for (size_t b = pos + 1; b-- > 0 && !ok;) { size_t p2 = b; State s3 = st; if (first(*n.ch[0], p2, s3, [&](size_t e) { return e == pos; })) { ok = true; s2 = s3; } }
				}
				if (n.neg) return !ok && k(pos, st);
				return ok && k(pos, s2);
			}
			case BackRef: {
				auto c = st.cap[size_t(n.id)];
				if (c.first < 0) return false;
				size_t len = size_t(c.second - c.first);
				if (backward(n) ? len > pos : pos + len > s.size()) return false;
				if (backward(n)) pos -= len;
				for (size_t i = 0; i < len; ++i) {
					char32_t x = s[pos + i], y = s[size_t(c.first) + i];
					if (x != y && !(st.ci && swapcase(x) == y)) return false;
				}
				return k(backward(n) ? pos : pos + len, st);
			}
			case Bol: return (pos == 0 || (st.ml && s[pos - 1] == '\n')) && k(pos, st);
			case Eol: return (pos == s.size() || (st.ml && s[pos] == '\n')) && k(pos, st);
			case SubjBegin: return pos == 0 && k(pos, st);
			case SubjEnd: return pos == s.size() && k(pos, st);
			case SubjEndLine: return (pos == s.size() || (st.ml && pos + 1 == s.size() && s[pos] == '\n')) && k(pos, st);
			case WordB: case NotWordB: {
				bool a = pos > 0 && is_word(s[pos - 1]), b = pos < s.size() && is_word(s[pos]);
				return ((a != b) == (n.k == WordB)) && k(pos, st);
			}
			case Mode: {
				State s2 = st;
				switch (n.mode) { case 'i': s2.ci = true; break; case 'c': s2.ci = false; break; case 's': s2.ml = false; break; case 'm': s2.ml = true; break; }
				return k(pos, s2);
			}
		}
		return false;
	}
};
}

Result run(const Pattern & p, Op op, const std::u32string & s, const Opts & o, size_t from, bool non_empty) {
	Result r;
	M mm{s, o};
	try {
		size_t last = op == Search ? s.size() : from;
		for (size_t b = from; b <= last; ++b) {
			State st;
			st.cap.assign(size_t(p.groups) + 1, {-1, -1});
			st.ci = o.ci; st.ml = o.multiline;
			bool ok = mm.m(*p.root, b, st, [&](size_t e, State & fin) {
				if (op == Match && e != s.size()) return false;
				if (non_empty && e == b) return false;
				r.cap = fin.cap; r.cap[0] = {int(b), int(e)};
				return true;
			});
			if (ok) { r.ok = true; return r; }
		}
	} catch (const OutOfBudget &) { r.unknown = true; }
	return r;
}

}
