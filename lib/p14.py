"""P14: stack use over long subjects."""
import random
from harness import *
from p13 import linear, pairs

HEAD = '''#include <ctre.hpp>
#include "monstack.hpp"
using namespace mon;
#define IT Deep db{b}, de{e};
template <ctll::fixed_string P> Depth s0(const char * b, const char * e) { IT return measure([&] { return long(bool(ctre::match<P>(db, de))); }); }
template <ctll::fixed_string P> Depth s1(const char * b, const char * e) { IT return measure([&] { return long(bool(ctre::starts_with<P>(db, de))); }); }
template <ctll::fixed_string P> Depth s2(const char * b, const char * e) { IT return measure([&] { return long(bool(ctre::search<P>(db, de))); }); }
template <ctll::fixed_string P> Depth s3(const char * b, const char * e) { IT return measure([&] { return count(ctre::search_all<P>(db, de)); }); }
template <ctll::fixed_string P> Depth s4(const char * b, const char * e) { IT return measure([&] { return count(ctre::split<P>(db, de)); }); }
template <ctll::fixed_string P> Depth s5(const char * b, const char * e) { IT return measure([&] { return count(ctre::tokenize<P>(db, de)); }); }
'''


class StackCase:
    def __init__(self, pattern, plan, ops="012345"):
        self.pattern, self.plan, self.ops = pattern, plan, ops

    def __str__(self):
        return self.pattern


def render(cases):
    o = [HEAD, "const StackCase stack_cases[] = {\n"]
    for c in cases:
        fns = ", ".join("&s%d<\"%s\">" % (i, cstr(c.pattern)) if str(i) in c.ops else "nullptr" for i in range(6))
        o.append('{"%s", "%s", 0, {%s}},\n' % (cstr(c.pattern), cstr(c.plan), fns))
    o.append("};\nconst size_t stack_case_count = sizeof(stack_cases) / sizeof(stack_cases[0]);\n")
    return "".join(o)


def p14(ck):
    r = random.Random("P14-%d" % ck.seed)
    k = 1 if ck.quick else 6
    cases = []
    bodies = [("[a-z]", "+abz"), ("a", "+a"), (".", "+ab"), (r"\w", "+a0"), ("(?:ab)", "~ab"), ("(?:a|bc)", "~abc"), ("(?:a|b)", "+ab"), ("[^,]", "+ab"), ("(a)", "+a"), ("(?:ab|a)", "~aba"), ("(?:a[bc])", "~abac"), ("(a|b)", "+ab"), ("(?:[0-9]{2})", "~12"), ("(?:a{1,2}b)", "~aab"), (r"\S", "+ab")]
    for b, plan in bodies:
        for q in ("++", "*+", "{2,}+", "{0,}+"):
            for t, tp in (("", ""), (",", "\x01=,"), ("$", ""), ("(,)", "\x01=,")):
                cases.append(StackCase(b + q + t, plan + tp, r.choice(["012345", "0135", "0124"])))
        cases.append(StackCase("(?>" + b + "++)x?", plan))
    cases = r.sample(cases, min(len(cases), 70 * k))
    lazy = []
    for b, plan in bodies + [("(?:a|b|cd)", "~abcd"), ("(?<k>[ab])", "+ab"), ("(?:(a)|(b))", "+ab")]:
        for q in ("*?", "+?", "{2,}?", "{1,}?"):
            for t, tp in ((",", "\x01=,"), ("$", ""), ("(,)", "\x01=,"), (",+?", "\x01=,"), (",*?;", "\x01=,;"), ("(?=,)", "\x01=,"), ("(?:,|;)", "\x01=,"), (",++", "\x01=,")):
                lazy.append(StackCase(b + q + t, plan + tp, r.choice(["01", "03", "14", "15", "2"])))
    cases += r.sample(lazy, min(len(lazy), 60 * k))
    for lit in ("abc", "a", "aab", "[a-c]x", "a[bc]d", "a.c", "(a)(b)", "(?<n>ab)", "a{3}", "[ab]{2}c", r"\d\d", ",", ";", r"\n", "ab|cd", "a|b|c", "(a)|(b)", "a?b", "[ab]?c", "(?:ab){2}", "^ab", "ab$", r"\ba", "(?=a)ab", "(?!b)ab", "(?<=a)b", "(?<!a)b", ".", "..", "[^a]"):
        cases.append(StackCase(lit, "=" + r.choice(["abc", "ab", "aab", "cx", "abcd", "a,b;"])))
    for pat, plan in linear(r, 70 * k):
        cases.append(StackCase(pat, plan))
    for pat, plan in pairs(r, 260 * k):
        cases.append(StackCase(pat, plan, r.choice(["02", "03", "14", "15", "2"])))
    objs = [ck.reflib(), ck.obj("main_stack.cpp", "main_stack.o", std="c++17")]
    cov = {"deepest_bytes": 0, "largest_growth": 0}

    def handle(rec):
        if "case" in rec:
            cov["deepest_bytes"] = max(cov["deepest_bytes"], rec["deepest"])
            cov["largest_growth"] = max(cov["largest_growth"], rec["growth"])
            ck.add(rec["evals"], 1 if rec["results"] else 0, {"pattern": rec["case"], "runs": rec["evals"], "reads": rec["reads"], "deepest_bytes": rec["deepest"], "growth": rec["growth"]} if r.random() < .06 else None, patterns=1, reads=rec["reads"])
    ck.rule = "possessive and lazy repetitions, literals and fixed-length elements, and sequences of repeated classes each followed by something disjoint, with every operation on subjects of 300 and 4000 (thorough: 12000) characters (one long stretch, many short ones, failing at the end, mostly non-matching); every read notes the frame address, and the depth may differ by at most 16000 bytes between the two lengths; non-trivial: something matched"
    big = 4000 if ck.quick else 12000
    ck.wait(ck.batch(cases, render, args=[ck.seed, big], link=objs, per=9, timeout=600, handle=handle, flags=FAST, name="o0"))
    ck.wait(ck.batch(r.sample(cases, 24 * k), render, args=[ck.seed + 1, big], link=objs, per=3, timeout=600, handle=handle, flags=[], opt="-O2", name="o2"))
    if not ck.quick:
        ck.wait(ck.batch(r.sample(cases, 40 * k), render, args=[ck.seed + 2, big], link=objs, per=3, timeout=600, handle=handle, flags=[], opt="-O1", name="cl", cxx="clang++"))
    ck.cov.update(cov)
