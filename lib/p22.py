"""P22: all spellings of an operation give the same results."""
import random
from harness import *
from core import mods
from p_core import ALL, REALISTIC
import patgen

ONE = ["match", "starts_with", "search"]
MANY = ["search_all", "split", "tokenize"]
MEMBER = {"search_all": "range"}
HEAD = '''#include <ctre-unicode.hpp>
#include "monsubj.hpp"
#include <algorithm>
#include <functional>
#include <optional>
#if __cplusplus >= 202002L
#include <ranges>
#endif
using namespace mon;
using namespace ctre::literals;
// every element of a sequence through an explicit loop
template <typename I, typename S> void walk(SeqRes & out, I it, S end, const char * b, long n) { for (; it != end; ++it) { grab(out, *it, b, n); if (long(out.size()) > 2 * n + 4) break; } }
template <typename I, typename S> void walk_post(SeqRes & out, I it, S end, const char * b, long n) { while (!(end == it)) { auto prev = it++; grab(out, *prev, b, n); if (long(out.size()) > 2 * n + 4) break; } }
template <typename F> struct Hold { F f; template <typename... A> constexpr auto operator()(A &&... a) const { return f(std::forward<A>(a)...); } };
template <typename F> constexpr Hold<F> hold(F f) { return {f}; }
// a filtered range of this one subject: its only element, or no match
template <typename R> void only(SeqRes & out, R && range, const char * b, long n) { for (auto && r: range) grab(out, r, b, n); if (out.empty()) { Res no; no.ok = false; no.n = int(std::decay_t<decltype(*range.begin())>::count()); out.push_back(no); } }
'''
# {o}: operation; {P}: the pattern (a constant in C++17, in place in C++20), {M}: modifiers; x: view of the subject, b, e: its bounds.
# flags: which modes the spelling expresses: None means any
ONESHOT = [
    ("in place", None, 20, "ctre::{o}<{L}{M}>(x)"), ("constant", None, 0, "ctre::{o}<{C}{M}>(x)"), ("class constant", None, 20, "ctre::{o}<{K}{M}>(x)"), ("wide constant", None, 0, "ctre::{o}<{W}{M}>(x)"), ("u8 literal", None, 20, "ctre::{o}<u8{L}{M}>(x)"), ("u literal", None, 20, "ctre::{o}<u{L}{M}>(x)"),
    ("iterators", None, 0, "ctre::{o}<{P}{M}>(x.begin(), x.end())"), ("pointers", None, 0, "ctre::{o}<{P}{M}>(b, e)"), ("exec", None, 0, "ctre::{o}<{P}{M}>.exec(x)"), ("exec pair", None, 0, "ctre::{o}<{P}{M}>.exec(b, e)"),
    ("static exec", None, 0, "std::decay_t<decltype(ctre::{o}<{P}{M}>)>::exec(x)"), ("try_extract", None, 0, "ctre::{o}<{P}{M}>.try_extract(x)"), ("invoke", None, 0, "std::invoke(ctre::{o}<{P}{M}>, x)"), ("held", None, 0, "hold(ctre::{o}<{P}{M}>)(x)"),
    ("default object", None, 0, "std::decay_t<decltype(ctre::{o}<{P}{M}>)>{{}}(x)"), ("with result iterator", None, 0, "ctre::{o}<{P}{M}>.template exec_with_result_iterator<const char *>(b, b, e)"),
    ("string", None, 0, "ctre::{o}<{P}{M}>(str)"), ("explicit singleline", 0, 0, "ctre::{o}<{P}, ctre::singleline>(x)"), ("explicit case_sensitive", 0, 0, "ctre::{o}<{P}, ctre::case_sensitive>(x)"), ("overridden", 0, 0, "ctre::{o}<{P}, ctre::case_insensitive, ctre::multiline, ctre::cs, ctre::singleline>(x)"),
    ("multiline_ overridden", 0, 0, "ctre::multiline_{o}<{P}, ctre::singleline>(x)"),
    ("member of match", 0, 0, "ctre::match<{P}>.{o}(x)"), ("member of search", 0, 0, "ctre::search<{P}>.{o}(b, e)"), ("member of split", 0, 0, "ctre::split<{P}>.{o}(x)"), ("re", 0, 0, "ctre::re<{P}>().{o}(x)"), ("re pair", 0, 0, "ctre::re<{C}>().{o}(b, e)"), ("re method", 0, 0, "ctre::re<{C}, ctre::{o}_method>()(x)"),
    ("literal", 0, 1, "{L}_ctre.{o}(x)"), ("literal pair", 0, 1, "{L}_ctre.{o}(b, e)"), ("literal string", 0, 1, "{L}_ctre.{o}(str)"),
    ("multiline_", 2, 0, "ctre::multiline_{o}<{P}>(x)"), ("multiline_ pair", 2, 0, "ctre::multiline_{o}<{P}>(b, e)"), ("multiline_ member", 2, 0, "ctre::search<{P}>.multiline_{o}(x)"), ("multiline_ of multiline_", 2, 0, "ctre::multiline_match<{P}>.multiline_{o}(x)"), ("multiline_ literal", 2, 1, "{L}_ctre.multiline_{o}(x)"), ("re multiline_", 2, 0, "ctre::re<{P}>().multiline_{o}(b, e)"), ("multiline with others", 2, 0, "ctre::{o}<{P}, ctre::singleline, ctre::cs, ctre::multiline>(x)"), ("multiline_ exec", 2, 0, "ctre::multiline_{o}<{P}>.exec(x)"),
    ("ci", 1, 0, "ctre::{o}<{P}, ctre::ci>(x)"), ("ci last", 1, 0, "ctre::{o}<{P}, ctre::cs, ctre::singleline, ctre::ci>(b, e)"), ("multiline_ ci overridden", 1, 0, "ctre::multiline_{o}<{P}, ctre::ci, ctre::singleline>(x)"),
    ("multiline_ ci", 3, 0, "ctre::multiline_{o}<{P}, ctre::case_insensitive>(x)"), ("multiline, ci", 3, 0, "ctre::{o}<{P}, ctre::multiline, ctre::ci>(x)"), ("ci, multiline", 3, 0, "ctre::{o}<{P}, ctre::ci, ctre::multiline>(b, e)"),
]
SEQ = [(n, f, s, t) for n, f, s, t in ONESHOT if "member" not in n and not n.startswith(("re", "literal", "multiline_ of", "multiline_ literal", "with result"))]
SEQ += [
    ("member of match", 0, 0, "ctre::match<{P}>.{m}(x)"), ("member pair", 0, 0, "ctre::tokenize<{P}>.{m}(b, e)"), ("re", 0, 0, "ctre::re<{P}>().{m}(x)"), ("literal", 0, 1, "{L}_ctre.{m}(x)"), ("literal pair", 0, 1, "{L}_ctre.{m}(b, e)"), ("re method", 0, 0, "ctre::re<{C}, ctre::{m}_method>()(x)"),
    ("multiline_ member", 2, 0, "ctre::match<{P}>.multiline_{m}(x)"), ("multiline_ literal", 2, 1, "{L}_ctre.multiline_{m}(b, e)"), ("re multiline_", 2, 0, "ctre::re<{C}>().multiline_{m}(x)"),
    ("pipe", None, 0, "x | ctre::{o}<{P}{M}>"), ("pipe string", None, 0, "str | ctre::{o}<{P}{M}>"), ("pipe temporary view", None, 0, "std::string_view(b, n) | ctre::{o}<{P}{M}>"), ("pipe held", None, 0, "x | std::decay_t<decltype(ctre::{o}<{P}{M}>)>()"), ("pipe multiline_", 2, 0, "x | ctre::multiline_{o}<{P}>"), ("pipe constant", None, 0, "str | ctre::{o}<{C}{M}>"),
]
# (name, flags, needs, statement) for sequences walked in other ways; only: for search_all
WALK = [
    ("begin and sentinel", None, 0, "auto r = ctre::{o}<{P}{M}>(x); walk(out, r.begin(), ctre::sentinel, b, long(n));"), ("end iterator object", None, 0, "auto r = ctre::{o}<{P}{M}>(x); walk_post(out, r.begin(), ctre::regex_end_iterator{{}}, b, long(n));"),
    ("algorithm", None, 20, "auto r = ctre::{o}<{P}{M}>(x); std::ranges::for_each(r, [&](const auto & m) {{ if (long(out.size()) <= 2 * long(n) + 4) grab(out, m, b, long(n)); }});"),
    ("view adaptor", None, 20, "auto r = ctre::{o}<{P}{M}>(x); for (auto && m: std::ranges::subrange(r.begin(), r.end()) | std::views::take(2 * n + 5)) grab(out, m, b, long(n));"),
]
ITER = [
    ("iterator", None, 0, "walk(out, ctre::iterator<{P}{M}>(x), ctre::sentinel, b, long(n));"), ("iterator pair", None, 0, "walk_post(out, ctre::iterator<{P}{M}>(b, e), ctre::sentinel, b, long(n));"), ("iterator and no subject", None, 0, "walk(out, ctre::iterator<{P}{M}>(x), ctre::iterator<{P}{M}>(), b, long(n));"), ("iterator of constant", None, 0, "walk(out, ctre::iterator<{C}{M}>(str), ctre::sentinel, b + (str.data() - b), long(n));"),
    ("multiline_iterator", 2, 0, "walk(out, ctre::multiline_iterator<{P}>(x), ctre::multiline_sentinel, b, long(n));"), ("literal iterator", 0, 1, "walk(out, {L}_ctre.iterator(x), {L}_ctre.iterator(), b, long(n));"), ("literal multiline_iterator", 2, 1, "walk(out, {L}_ctre.multiline_iterator(b, e), {L}_ctre.multiline_iterator(), b, long(n));"), ("re iterator", 0, 0, "walk_post(out, ctre::re<{C}>().iterator(b, e), ctre::sentinel, b, long(n));"),
    ("range", None, 0, "grab_all(out, ctre::range<{P}{M}>(x), b, long(n));"), ("range pair", None, 0, "grab_all(out, ctre::range<{C}{M}>(b, e), b, long(n));"), ("pipe range", None, 0, "grab_all(out, x | ctre::range<{P}{M}>, b, long(n));"), ("multiline_range", 2, 0, "grab_all(out, ctre::multiline_range<{P}>(x), b, long(n));"), ("pipe multiline_range", 2, 0, "grab_all(out, x | ctre::multiline_range<{P}>, b, long(n));"),
]
FILTER = [
    ("range of one", None, 0, "std::vector<std::string_view> v{{x}}; only(out, v | ctre::{o}<{P}{M}>, b, long(n));"), ("range of one, multi_exec", None, 0, "const std::array<std::string_view, 1> v{{x}}; only(out, ctre::{o}<{C}{M}>.multi_exec(v), b, long(n));"), ("multiline_ of a range", 2, 0, "std::vector<std::string_view> v{{x}}; only(out, v | ctre::multiline_{o}<{P}>, b, long(n));"), ("literal constants", None, 0, "if (auto r = ctre::{o}<{P}{M}>(x)) grab(out, r, b, long(n)); else grab(out, decltype(r)(), b, long(n));"),
]


def statements(op, flags, std, cxx):
    lit = std == "c++20" or cxx == "clang++"
    def fits(f, need):
        return (f is None or f == flags) and (need == 0 or (need == 20 and std == "c++20") or (need == 1 and lit))
    out = []
    if op in ONE:
        out += [(n, "{S}grab(out, %s, {B}, long(n));" % t) for n, f, q, t in ONESHOT if fits(f, q)]
        out += [(n, t) for n, f, q, t in FILTER if fits(f, q)]
    else:
        out += [(n, "{S}grab_all(out, %s, {B}, long(n));" % t) for n, f, q, t in SEQ if fits(f, q)]
        out += [(n, t) for n, f, q, t in WALK if fits(f, q)]
        if op == "search_all":
            out += [(n, t) for n, f, q, t in ITER if fits(f, q)]
    return out


class SpellCase:
    def __init__(self, pattern, alphabet, flags, op, std, cxx):
        self.pattern, self.alphabet, self.flags, self.op = pattern, alphabet, flags, op
        self.std = std
        self.entries = []

    def __str__(self):
        return self.pattern


def render(cases):
    o = [HEAD]
    tab = []
    for i, c in enumerate(cases):
        L = '"%s"' % cstr(c.pattern)
        C, W = "c%d" % i, "w%d" % i
        P = L if c.std == "c++20" else C
        o.append("static constexpr auto %s = ctll::fixed_string{%s};\nstatic constexpr ctll::fixed_string %s = U%s;\nstruct K%d { static constexpr auto p = ctll::fixed_string{%s}; };\n" % (C, L, W, L, i, L))
        if c.std != "c++20":
            o.append("static constexpr auto pt%d = ctre::%s{%s};\n" % (i, ["pattern", "fixed_string"][i % 2], L))
        sub = dict(o=c.op, m=MEMBER.get(c.op, c.op), P=P, L=L, C=C if c.std == "c++20" or i % 3 else "pt%d" % i, W=W, K="K%d::p" % i, M=mods(c.flags))
        pro = "[[maybe_unused]] const char * b, * e; const std::string str = as<char>(t, n); b = str.data(); e = b + n; [[maybe_unused]] const std::string_view x(b, n); "
        es = ""
        g = "grab" if c.op in ONE else "grab_all"
        o.append("static void base%d(SeqRes & out, const char32_t * t, size_t n) { %s %s(out, ctre::%s<%s%s>(x), b, long(n)); }\n" % (i, pro, g, c.op, P, mods(c.flags)))
        for j, (name, stmt) in enumerate(c.entries):
            stmt = stmt.replace("{S}", "").replace("{B}", "b").format(**sub)
            o.append("static void s%d_%d(SeqRes & out, const char32_t * t, size_t n) { %s %s }\n" % (i, j, pro, stmt))
            es += '{"%s, %s", &base%d, &s%d_%d, 0}, ' % (c.op, name, i, i, j)
        tab.append('{"%s", "%s", %d, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, es))
    o.append("const SubjCase subj_cases[] = {\n" + "".join(tab) + "};\nconst size_t subj_case_count = sizeof(subj_cases) / sizeof(subj_cases[0]);\n")
    return "".join(o)


def p22(ck):
    r = random.Random("P22-%d" % ck.seed)
    k = 1 if ck.quick else 8
    pats = [(p, a) for p, a in REALISTIC if "??" not in p]
    edge = ["a", "", "^", "$", "^a", "a$", "^a$", r"\ba", "(?<=a)b", "a*", "a*?b", "a*+b", "[ab]+", "(a|b)+", r"(a)\1", "(?=a)", ".", ".*", ".+", "abc", "ab|cd", "[^a]+b", r"\s*a", r"\Aa", r"a\Z", r"a\z", "(a)(b)?", "(?<n>a)|b", "a{2}", "(?>a+)b", "a?", "b|", "^.", ".$", "^$", ",", ",*", "(?i)a", "(?i)a+b", "(?m)^a", "(?m)a$", "(?s)a.b", "a(?i)b", "A", "aB", "[A-b]", r"(A)\1", "^a.b$", "a.b", r"\n", "^|$", r"$\n", "(?<=\\n)a", "(?<!^)a", "b(?!$)"]
    pats += [(p, "abAB\n," if p != p.lower() or "(?" in p else "ab\n,") for p in edge]
    pats += [(p, "abB\n") for p in patgen.many(r, 160 * k, None, **ALL)]
    decks = {}
    cases = []
    ENV = [("c++20", "g++"), ("c++20", "g++"), ("c++20", "clang++"), ("c++17", "g++"), ("c++17", "clang++")]
    for p, a in pats:
        for _ in range(2 if ck.quick else 4):
            std, cxx = r.choice(ENV)
            flags = r.choice([0, 0, 0, 1, 2, 2, 3])
            op = r.choice(ONE + MANY)
            c = SpellCase(p, a, flags, op, std, cxx)
            key = (op, flags, std, cxx)
            while len(c.entries) < 7:  # the spellings possible here are dealt in turn
                if not decks.get(key):
                    decks[key] = statements(op, flags, std, cxx)
                    r.shuffle(decks[key])
                e = decks[key].pop()
                if e not in c.entries:
                    c.entries.append(e)
                elif len(c.entries) >= 4:
                    break
            c.entries = c.entries[:7]
            c.env = (std, cxx)
            cases.append(c)
    r.shuffle(cases)
    count = {}
    for c in cases:
        for n, _ in c.entries:
            count[n] = count.get(n, 0) + 1
    ck.cov["instances_by_spelling"] = count
    objs = [ck.reflib(), ck.obj("main_subj.cpp", "main_subj.o", std="c++17")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if rec["hits"] else 0, {"pattern": rec["case"], "comparisons": rec["evals"], "results": rec["hits"]} if r.random() < .05 else None, patterns=1, results=rec["hits"])
    ck.rule = "every spelling (%d forms: in place or by constant of several types, view / string / pair, exec, try_extract, invoke, members, literals, re<>, pipes, range, iterator with sentinel, multiline_ forms, modifier orders, filtered ranges of one) against the plain call with the canonical modifiers, in C++20 and C++17, gcc and clang; all captures of all results compared; non-trivial: something matched" % len(count)
    futs = []
    for env in sorted(set(ENV)):
        sel = [c for c in cases if c.env == env]
        futs += ck.batch(sel, render, args=[ck.seed, 1 if ck.quick else 4], link=objs, per=8, timeout=600, handle=handle, flags=FAST + (["-Wno-deprecated"] if 1 else []), name="e%s%s" % (env[0][-2:], env[1][0]), std=env[0], cxx=env[1])
    ck.wait(futs)
