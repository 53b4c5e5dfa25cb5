"""P12: a pattern applied to a range of subjects."""
from harness import *
from core import Case, mods
from p_core import rnd, pick, ALL, REALISTIC

HEAD = '''#include <ctre.hpp>
#include "monmulti.hpp"
using namespace mon;
template <ctll::fixed_string P, typename... M> void mm(const std::vector<std::string_view> & v, int s, size_t cap, MSeq & out) { shapes(ctre::match<P, M...>, v, s, cap, out); }
template <ctll::fixed_string P, typename... M> void ms(const std::vector<std::string_view> & v, int s, size_t cap, MSeq & out) { shapes(ctre::search<P, M...>, v, s, cap, out); }
template <ctll::fixed_string P, typename... M> void mw(const std::vector<std::string_view> & v, int s, size_t cap, MSeq & out) { shapes(ctre::starts_with<P, M...>, v, s, cap, out); }
template <ctll::fixed_string P, typename... M> Hit om(std::string_view s) { return hit(ctre::match<P, M...>(s)); }
template <ctll::fixed_string P, typename... M> Hit os(std::string_view s) { return hit(ctre::search<P, M...>(s)); }
template <ctll::fixed_string P, typename... M> Hit ow(std::string_view s) { return hit(ctre::starts_with<P, M...>(s)); }
'''


def render(cases):
    o = [HEAD, "const MultiCase multi_cases[] = {\n"]
    for c in cases:
        t = '<"%s"%s>' % (cstr(c.pattern), mods(c.flags))
        o.append('{"%s", "%s", %d, {&mm%s, &ms%s, &mw%s}, {&om%s, &os%s, &ow%s}},\n' % ((cstr(c.pattern), cstr(c.alphabet), c.flags) + (t,) * 6))
    o.append("};\nconst size_t multi_case_count = sizeof(multi_cases) / sizeof(multi_cases[0]);\n")
    return "".join(o)


def p12(ck):
    k = 1 if ck.quick else 8
    fixed = ["a", "a+", "(a)(b)?", "a*", "", "^a", "a$", "b", "(a)|(b)", r"\bab\b", "(?<=a)b", "[^a]+", "a|", r"(.)\1", "ab", "$", "^$", "x"]
    cases = [Case(p, "fixed", "ab") for p in fixed] + [Case(p, "realistic", a) for p, a in pick(ck, REALISTIC, 8 * k, "r")] + [Case(p, "ci", "aAb", 1) for p in ("a", "ab", "[^a]")] + [Case("^a$", "ml", "ab\n", 2)]
    cases += rnd(ck, 30 * k, "a", anchor=2, backref=1)
    objs = [ck.reflib(), ck.obj("main_multi.cpp", "main_multi.o", std="c++17")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if rec["mixed"] else 0, {"pattern": rec["case"], "sequences": rec["evals"], "results": rec["elements"]} if ck.evaluations % 3 == 0 else None, patterns=1, results=rec["elements"], mixed_ranges=rec["mixed"], undecided=rec["unknown"])
    ck.rule = "fixed, realistic and random patterns x match/search/starts_with over random lists of 0..40 subjects (some all matching, some none) held in vector, list, deque, forward_list, temporary and a watched range that records reads and steps past its end; non-trivial: some list had both matching and non-matching subjects"
    ck.wait(ck.batch(cases, render, args=[ck.seed, 60 if ck.quick else 150], link=objs, per=5, timeout=400, handle=handle, flags=FAST))
