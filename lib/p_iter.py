"""P09, P10, P11: sequences of matches, pieces and tokens."""
import random
from harness import *
from core import Case, mods
from p_core import rnd, pick, ALL, REALISTIC
import shapes

NAME = ["search_all", "split", "tokenize"]
HEAD = '''#include <ctre.hpp>
#include "moniter.hpp"
using namespace mon;
template <ctll::fixed_string P, typename... M> void it0(const char * b, const char * e, int mode, size_t cap, Seq & out) {
	std::string_view sv(b, size_t(e - b));
	if (mode == Sentinel) { plain(ctre::iterator<P, M...>(sv), ctre::sentinel, b, cap, out); return; }
	if (mode == Pair) { drive(ctre::search_all<P, M...>(b, e), b, Copies, cap, out); return; }
	if (mode == Pipe) { drive(sv | ctre::search_all<P, M...>, b, RangeFor, cap, out); return; }
	drive(ctre::search_all<P, M...>(sv), b, mode, cap, out);
}
template <ctll::fixed_string P, typename... M> void it1(const char * b, const char * e, int mode, size_t cap, Seq & out) {
	std::string_view sv(b, size_t(e - b));
	if (mode == Pair) { drive(ctre::split<P, M...>(b, e), b, Copies, cap, out); return; }
	if (mode == Pipe) { drive(sv | ctre::split<P, M...>, b, RangeFor, cap, out); return; }
	drive(ctre::split<P, M...>(sv), b, mode, cap, out);
}
template <ctll::fixed_string P, typename... M> void it2(const char * b, const char * e, int mode, size_t cap, Seq & out) {
	std::string_view sv(b, size_t(e - b));
	if (mode == Pair) { drive(ctre::tokenize<P, M...>(b, e), b, Copies, cap, out); return; }
	if (mode == Pipe) { drive(sv | ctre::tokenize<P, M...>, b, RangeFor, cap, out); return; }
	drive(ctre::tokenize<P, M...>(sv), b, mode, cap, out);
}
'''


def renderer(kind):
    def render(cases):
        o = [HEAD, "const IterCase iter_cases[] = {\n"]
        for c in cases:
            o.append('{"%s", "%s", "%s", %d, %d, &it%d<"%s"%s>},\n' % (cstr(c.pattern), c.tag, cstr(c.alphabet), c.flags, kind, kind, cstr(c.pattern), mods(c.flags)))
        o.append("};\nconst size_t iter_case_count = sizeof(iter_cases) / sizeof(iter_cases[0]);\n")
        return "".join(o)
    return render


def run_iter(ck, kind, cases, exhaustive=300, samples=70, randoms=70):
    objs = [ck.reflib(), ck.obj("main_iter.cpp", "main_iter.o", std="c++17")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if rec["multi"] else 0, {"pattern": rec["case"], "flags": rec["flags"], "sequences": rec["evals"], "elements": rec["elements"]} if ck.evaluations % 5 == 0 else None,
                   patterns=1, elements=rec["elements"], sequences_with_several_elements=rec["multi"], empty_matches=rec["empties"], undecided=rec["unknown"], captures_seen=rec["capset"])
    ck.wait(ck.batch(cases, renderer(kind), args=[ck.seed, exhaustive, samples, randoms], link=objs, per=16, timeout=400, handle=handle, flags=FAST))


EMPTYISH = ["", "a*", "a*?", "a?", "(?:)", "()", "a|", "|a", "(a)|", "(a*)", "b*a*", "(?:a|b?)", "a??", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", r"\b", r"\B", "^", "$", r"\A", r"\z", r"\Z", "(?=b)a*", "(?<=a)b*", "a*$", "^a*", r"\ba*", "a*\\b", "(a?)(b?)", "(?:a{0,2})", "(?>a*)", "[ab]*", "[^a]*", ".*", ".*?", "(?:ab)*", "(?:ab|)", "(a|b|)"]
CONTEXT = [r"(?<=a)b", r"(?<!a)b", r"\bb", r"\Bb", r"b\b", r"a(?=b)", r"a(?!b)", "^a", "a$", r"\Aa", r"a\z", "^", r"(?<=b)", r"(?<=^)a", r"(?<!^)a", r"(?<=ab)a", r"(?<=a+)b", r"(?<=(a))b", "^a|b", "b|^a", "^ab?|b", r"\ba|b", "(?:^|b)a", "(?:^|,)[^,]*", "[^,]*(?:,|$)", r"\w+$", r"^\w+", "(?<=,)[^,]+|^[^,]+"]
PLAIN = ["a", "b", "ab", "[ab]", ".", "a+", "a+?", "a{2}", "a{1,2}", "aa", "aba", "(a)(b)?", "(a)|(b)", "(a)|(b)|(c)", "([ab])", "(a+)(b*)", "(?:a|ab)", "(?:ab|a)", "(a|ab)(c?)", r"(.)\1", r"(a)b?\1", "a.b", ".a", "a.", "..", "[^a]", "[^a]+", "(?>a+)b?", "a++b?", r"([0-9]+),?", r"\w+", r"\s+", r"\s*,\s*", ",", ",+", ",|;", "(,)|(;)", "(?<sep>[,;])", "a,", ",a"]


def cases_for(ck, k):
    al = lambda p: "a, b" if "," in p or "\\s" in p else "abc" if "c" in p else "ab"
    out = [Case(p, "can match empty", al(p)) for p in EMPTYISH] + [Case(p, "context", al(p)) for p in CONTEXT] + [Case(p, "plain", al(p)) for p in PLAIN]
    ml = [p for p in EMPTYISH + CONTEXT if any(x in p for x in ("^", "$", "\\Z", ".", "\\A", "\\z"))]
    out += [Case(p, "multi-line", "ab\n", 2) for p in ml] + [Case(p, "multi-line", "ab\n", 2) for p in ("^.*$", "^", "$", "^$", "^.+$", "(?m)^a", r"\n", ".+", r"^a?\n", r"\n?^", r"$\n")]
    out += [Case(p, "ci", "aAbB", 1) for p in ("a", "aB", "[^a]+", "a*", r"(a)\1", "a|")]
    out += [Case(p, "realistic", a) for p, a in pick(ck, REALISTIC, 12 * k, "it")]
    out += rnd(ck, 90 * k, "it-a", anchor=3, wordb=3, ahead=2, behind=3, backref=2, atomic=1, empty=3)
    out += rnd(ck, 50 * k, "it-b", empty=4, depth=2)
    out += rnd(ck, 24 * k, "it-c", "\n", 2, anchor=6, wordb=2, any=5, behind=2)
    out += [Case(p, "scale", a + ("," if "," not in a else "")) for p, a in pick(ck, shapes.scale(), 36 * k, "sc")]
    seen, res = set(), []
    for c in out:
        if (c.pattern, c.flags) not in seen:
            seen.add((c.pattern, c.flags))
            res.append(c)
    return res


RULE = "patterns that can match empty, that depend on context (anchors, boundaries, look-behind), plain, multi-line, realistic and random; subjects as in P01; every element of every sequence checked in turn against the reference engine started where the previous element ended; sequences through range-for, copies with post-increment and saved iterators, a second pass, iterator pair, pipe (and ctre::iterator with sentinel); a pattern is non-trivial if some sequence had several elements"


def p09(ck):
    ck.rule = RULE
    run_iter(ck, 0, cases_for(ck, 1 if ck.quick else 8))


def p10(ck):
    ck.rule = RULE
    run_iter(ck, 1, cases_for(ck, 1 if ck.quick else 8))


def p11(ck):
    ck.rule = RULE
    run_iter(ck, 2, cases_for(ck, 1 if ck.quick else 8))
