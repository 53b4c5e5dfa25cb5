// Online monitor for enumeration, splitting and tokenizing: every element a sequence yields is checked against what the
// reference engine allows after the elements before it.
#include "moniter.hpp"
#include "monutil.hpp"
using namespace mu;
using namespace mon;

static bool eq(const Res & a, const ref::Result & r, int from_group) {
	if (size_t(a.n) != r.cap.size()) return false;
	for (int i = from_group; i < a.n; ++i) if (a.s[i][0] != r.cap[size_t(i)].first || a.s[i][1] != r.cap[size_t(i)].second) return false;
	return true;
}
static std::string show(const Seq & q) {
	std::string o;
	for (auto & e: q.el) { o += "["; for (int i = 0; i < e.n; ++i) o += (i ? " " : "") + std::to_string(e.s[i][0]) + ".." + std::to_string(e.s[i][1]); o += "]"; if (o.size() > 300) return o + "..."; }
	return o;
}

int main(int argc, char ** argv) {
	install();
	uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
	size_t exhaustive = argc > 2 ? size_t(atol(argv[2])) : 300, samples = argc > 3 ? size_t(atol(argv[3])) : 100, randoms = argc > 4 ? size_t(atol(argv[4])) : 60;
	static const char * names[] = {"range-for", "copies", "second pass", "iterator and sentinel", "iterator pair", "pipe"};
	for (size_t c = from_case(argc, argv); c < iter_case_count; ++c) {
		const auto & k = iter_cases[c];
		Rng rng(seed * 1000003 + c);
		auto pat = ref::parse(decode(k.pattern));
		if (!pat.ok) { printf("{\"error\":\"reference parser\",\"pattern\":%s,\"why\":%s}\n", jstr(k.pattern).c_str(), jstr(pat.error).c_str()); continue; }
		const bool ci = k.flags & 1, ml = k.flags & 2;
		large = std::string(k.tag) == "scale";
		auto subj = subjects(pat, k.alphabet, exhaustive, samples, randoms, rng);
		long seqs = 0, elements = 0, multi = 0, unknown = 0, viol = 0, empties = 0, capset = 0;
		current.pattern = k.pattern; current.index = c;
		for (auto & s: subj) {
			std::u32string w = widen(s);
			char * buf = static_cast<char *>(malloc(s.size() + 1));
			memcpy(buf, s.data(), s.size()); buf[s.size()] = 'a';
			size_t cap = 2 * s.size() + 4;
			if (large) { // more work than the reference is allowed: nothing is said about it
				bool much = false;
				for (size_t p = 0; p <= s.size() && !much;) {
					auto e = expected(pat, k.kind == Tokenize ? ref::StartsWith : ref::Search, w, ci, ml, p, k.kind == Split);
					much = e.unknown;
					if (much || !e.r[0].ok) break;
					p = std::max(p + 1, size_t(e.r[0].cap[0].second));
				}
				if (much) { unknown++; free(buf); continue; }
			}
			for (int mode = 0; mode < modes; ++mode) {
				if (k.kind != SearchAll && mode == Sentinel) continue;
				Seq q;
				current.what = names[mode]; current.subject = s;
				allow_cpu(8);
				k.fn(buf, buf + s.size(), mode, cap, q);
				allow_cpu(0);
				const char * why = nullptr;
				bool skip = false;
				auto ask = [&](ref::Op op, size_t from) { auto e = expected(pat, op, w, ci, ml, from); if (e.unknown) skip = true; return e; };
				// verdict of one step: 1 agrees, 0 not, and whether "no element" is acceptable
				size_t pos = 0, len = s.size(), i = 0;
				bool last_empty = false, ended = false;
				if (k.kind == SearchAll) {
					while (!why && !skip) {
						bool may_end = false, must_end = i && pos == len, ok = false;
						if (!must_end) {
							auto e = ask(ref::Search, pos + (last_empty ? 1 : 0));
							if (skip) break;
							for (int v = 0; v < e.n; ++v) { if (!e.r[v].ok) may_end = true; else if (i < q.el.size() && eq(q.el[i], e.r[v], 0)) ok = true; }
						} else may_end = true;
						if (i == q.el.size()) { if (!may_end) why = "a match is missing"; ended = true; break; }
						if (!ok) { why = must_end ? "an element after the end of the subject was reached" : "an element is not the next match"; break; }
						last_empty = q.el[i].s[0][0] == q.el[i].s[0][1]; pos = size_t(q.el[i].s[0][1]); empties += last_empty; ++i;
					}
				} else if (k.kind == Tokenize) {
					while (!why && !skip) {
						bool may_end = pos == len, ok = false;
						auto e = ask(ref::StartsWith, pos);
						if (skip) break;
						for (int v = 0; v < e.n; ++v) { bool none = !e.r[v].ok || e.r[v].cap[0].first == e.r[v].cap[0].second; if (none) may_end = true; else if (i < q.el.size() && pos < len && eq(q.el[i], e.r[v], 0)) ok = true; }
						if (i == q.el.size()) { if (!may_end) why = "a token is missing"; ended = true; break; }
						if (!ok) { why = "an element is not the next token"; break; }
						pos = size_t(q.el[i].s[0][1]); ++i;
					}
				} else {
					while (!why && !skip) {
						// the next non-empty separator
						Expected e; size_t from = pos; bool several = false;
						for (;;) { e = ask(ref::Search, from); if (skip || !e.r[0].ok) break; several = several || e.n > 1; if (several) break; auto & m = e.r[0].cap[0]; if (m.first != m.second) break; if (size_t(m.second) == len) { e.r[0].ok = false; break; } from = size_t(m.second) + 1; }
						if (e.n > 1 || several) skip = true; // more than one correct separator: this subject says nothing
						if (skip) break;
						if (i == q.el.size()) { if (!(len == 0 && i == 0)) why = e.r[0].ok ? "a piece is missing" : "the last piece is missing"; ended = true; break; }
						auto & x = q.el[i];
						if (e.r[0].ok) {
							if (x.s[0][0] != int(pos) || x.s[0][1] != e.r[0].cap[0].first) { why = "a piece is not the text before the next separator"; break; }
							if (!eq(x, e.r[0], 1)) { why = "captures of a piece are not those of its separator"; break; }
							pos = size_t(e.r[0].cap[0].second); ++i;
						} else {
							if (x.s[0][0] != int(pos) || x.s[0][1] != int(len)) { why = "the last piece is not the rest of the subject"; break; }
							for (int g = 1; g < x.n; ++g) if (x.s[g][0] >= 0) why = "the last piece has captures";
							if (!why && i + 1 != q.el.size()) why = "an element after the last piece";
							++i; ended = true; break;
						}
					}
				}
				if (skip) { unknown++; continue; }
				if (!why && q.overflow) why = "the sequence does not end";
				if (!why && q.complaint) why = q.complaint;
				(void)ended;
				seqs++; elements += long(q.el.size()); multi += q.el.size() > 1;
				for (auto & el: q.el) for (int g = 1; g < el.n; ++g) capset += el.s[g][0] >= 0;
				if (why && viol++ < 3)
					printf("{\"violation\":\"sequence\",\"pattern\":%s,\"flags\":%d,\"what\":\"%s\",\"why\":\"%s\",\"subject\":%s,\"got\":%s,\"element\":%zu}\n", jstr(k.pattern).c_str(), k.flags, names[mode], why, jstr(s).c_str(), jstr(show(q)).c_str(), i);
			}
			free(buf);
		}
		printf("{\"case\":%s,\"i\":%zu,\"tag\":\"%s\",\"flags\":%d,\"subjects\":%zu,\"evals\":%ld,\"elements\":%ld,\"multi\":%ld,\"unknown\":%ld,\"empties\":%ld,\"capset\":%ld,\"viol\":%ld}\n", jstr(k.pattern).c_str(), c, k.tag, k.flags, subj.size(), seqs, elements, multi, unknown, empties, capset, viol);
	}
	printf("{\"done\":%zu}\n", iter_case_count);
}
