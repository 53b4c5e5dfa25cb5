"""P18: pattern text means its characters whatever the literal type."""
import random
from harness import *
from core import mods
from p_core import ALL
import patgen

HEAD = '''#include <ctre-unicode.hpp>
#include "monlit.hpp"
using namespace mon;
#define SUBJECT std::u32string_view(b, n)
'''
HEAD20 = HEAD + '''template <ctll::fixed_string P, typename... M> Res mt(const char32_t * b, size_t n) { return conv(ctre::match<P, M...>(SUBJECT), b, std::make_index_sequence<decltype(ctre::match<P, M...>(SUBJECT))::count()>()); }
template <ctll::fixed_string P, typename... M> Res se(const char32_t * b, size_t n) { return conv(ctre::search<P, M...>(SUBJECT), b, std::make_index_sequence<decltype(ctre::search<P, M...>(SUBJECT))::count()>()); }
'''
HEAD17 = HEAD + '''template <const auto & P, typename... M> Res mt(const char32_t * b, size_t n) { return conv(ctre::match<P, M...>(SUBJECT), b, std::make_index_sequence<decltype(ctre::match<P, M...>(SUBJECT))::count()>()); }
template <const auto & P, typename... M> Res se(const char32_t * b, size_t n) { return conv(ctre::search<P, M...>(SUBJECT), b, std::make_index_sequence<decltype(ctre::search<P, M...>(SUBJECT))::count()>()); }
'''
ILL = [("u8", r"\xC3", 0), ("u8", r"\xC3\xA9", 1), ("u8", r"a\x80", 0), ("u8", r"\xC0\x80", 0), ("u8", r"\xE2\x82", 0), ("u8", r"\xE2\x82\xAC", 1), ("u8", r"\xED\xA0\x80", 0), ("u8", r"\xF0\x9F\x98\x80", 1), ("u8", r"\xF4\x90\x80\x80", 0), ("u8", r"\xF8\x88\x80\x80\x80", 0), ("u8", r"\xFF", 0), ("u8", r"a\xE2" "z", 0),
       ("u", r"\xD800", 0), ("u", r"\xDC00", 0), ("u", r"\xD83D\xDE00", 1), ("u", r"\xDE00\xD83D", 0), ("u", r"a\xD83D" "z", 0), ("u", r"\xD7FF\xE000", 1), ("u", r"\xD83D\xD83D\xDE00", 0)]


class LitCase:
    def __init__(self, pattern, alphabet, flags):
        self.pattern, self.alphabet, self.flags = pattern, alphabet, flags

    def __str__(self):
        return self.pattern


def prefixes(p, utf8, std):
    out = ["U", "u", "L"] + (["u8"] if std >= 20 or utf8 or all(ord(x) < 128 for x in p) else [])
    if utf8 or all(ord(x) < 128 for x in p):
        out.append("")
    return out


def renderer(std, utf8):
    def render(cases):
        o = ["#define CTRE_STRING_IS_UTF8 1\n" if utf8 else "", HEAD20 if std >= 20 else HEAD17]
        rows = []
        for i, c in enumerate(cases):
            es = []
            for pre in prefixes(c.pattern, utf8, std):
                lit = '%s"%s"' % (pre, cstr(c.pattern))
                if std < 20:
                    nm = "pat%d%s" % (i, pre or "c")
                    o.append("static constexpr ctll::fixed_string %s = %s;\n" % (nm, lit))
                    lit = nm
                es.append('{"%s", {&mt<%s%s>, &se<%s%s>}}' % (pre or "plain", lit, mods(c.flags), lit, mods(c.flags)))
            if std >= 20:
                o.append("static constexpr ctll::fixed_string named%d = u8\"%s\";\n" % (i, cstr(c.pattern)))
                es.append('{"constant", {&mt<named%d%s>, &se<named%d%s>}}' % (i, mods(c.flags), i, mods(c.flags)))
                if not c.flags:
                    o.append("using namespace ctre::literals;\n" if i == 0 else "")
                    o.append('static Res lm%d(const char32_t * b, size_t n) { constexpr auto p = u"%s"_ctre; auto r = p.match(SUBJECT); return conv(r, b, std::make_index_sequence<decltype(r)::count()>()); }\n' % (i, cstr(c.pattern)))
                    o.append('static Res ls%d(const char32_t * b, size_t n) { constexpr auto p = u"%s"_ctre; auto r = p.search(SUBJECT); return conv(r, b, std::make_index_sequence<decltype(r)::count()>()); }\n' % (i, cstr(c.pattern)))
                    es.append('{"u literal operator", {&lm%d, &ls%d}}' % (i, i))
            rows.append('{"%s", "%s", %d, {%s, {nullptr, {}}}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, ", ".join(es)))
        o.append("const LitCase lit_cases[] = {\n" + "".join(rows) + "};\nconst size_t lit_case_count = sizeof(lit_cases) / sizeof(lit_cases[0]);\n")
        fl = []
        for pre, t, ok in ILL:
            if pre == "u8" and std < 20 and not utf8:
                continue
            fl.append('{"%s%s", ctll::fixed_string(%s"%s").correct(), %s},\n' % (pre, t.replace("\\", "\\\\"), pre, t, "true" if ok else "false"))
        o.append("static constexpr LitFlag flags[] = {\n" + "".join(fl) + "};\n")
        o.append("const size_t lit_flag_count = sizeof(flags) / sizeof(flags[0]);\n")
        return "".join(o).replace("static constexpr LitFlag flags[]", "constexpr LitFlag lit_flags[]").replace("sizeof(flags) / sizeof(flags[0])", "sizeof(lit_flags) / sizeof(lit_flags[0])")
    return render


def p18(ck):
    r = random.Random("P18-%d" % ck.seed)
    k = 1 if ck.quick else 6
    pats = ["é", "é+", "[é-ř]+", "[^é]", "😀", "😀+a", "(?:é|€)*", "(é)(€)?", "a.", "[a-é]b?", "é{2}", "(.)\\1", "(?<x>é.)a\\g{x}", "(?<=é).", "�", "[�😀]", "𝄞|ア", "ア{1,2}?𝄞", r"\x{1F600}", r"\u00e9", "[€-😀]+", "日本語", "日|本+|語?", "(日本)+", "[éa-c😀]*z", "\U0010FFFF", "[\U00010000-\U0010FFFF]", "\u0080", "\u07ff\u0800", "\uffff", "\ud7ff\ue000", "\x7f", "é\\.", "\\*é", "(?i)É[a-c]", "(a|é|(😀))\\1?", "ab", "a", "a😀", "😀a", "éa", "aé", "", "[😀-😂]+", "(?=é)é|(?!😀).", "[[:digit:]é]", "\\d\u0660?"]
    cases = [LitCase(p, "aé€😀b", r.choice([0, 0, 1]) if "(?" not in p else 0) for p in r.sample(pats, len(pats)) * (1 if ck.quick else 2)]
    for p in patgen.many(r, 30 * k, None, letters="aé😀€", **dict(ALL, set=5)):
        cases.append(LitCase(p, "aé€😀b", r.choice([0, 0, 1])))
    for p in patgen.many(r, 14 * k, None, **ALL):
        cases.append(LitCase(p, "ab\n A", r.choice([0, 0, 1, 2])))
    r.shuffle(cases)
    ref = ck.reflib()
    objs = [ref, ck.obj("main_litpat.cpp", "main_litpat.o", std="c++17")]
    def handle(rec):
        if rec.get("case") == "fixed_string":
            ck.add(rec["evals"], 1, {"unit_strings": rec["evals"], "ill_formed": rec["ill"], "with_multi_unit_characters": rec["multi"]}, unit_strings=rec["evals"], ill_formed=rec["ill"], with_multi_unit_characters=rec["multi"])
        elif "case" in rec:
            ck.add(rec["evals"], 1 if rec["hits"] else 0, {"pattern": rec["case"], "comparisons": rec["evals"], "matches": rec["hits"]} if r.random() < .1 else None, patterns=1, comparisons=rec["evals"], matches=rec["hits"])
    ck.rule = "pattern text objects made from exactly sized arrays of units of every character type (all code points, all 2-unit and representative 3 and 4-unit strings, random and damaged texts) against independent decoders, under address and UB sanitizers; and patterns written in literals of every type (also named constants, the literal operator, C++17, CTRE_STRING_IS_UTF8) matched against the same subjects; non-trivial: something matched"
    futs = []
    n = len(cases)
    half = n * 6 // 10
    plan = [("g++", 20, False, cases[:half]), ("g++", 17, False, cases[half:half + n // 10]), ("g++", 20, True, cases[half + n // 10: half + 2 * n // 10]), ("clang++", 20, False, cases[half + 2 * n // 10:half + 3 * n // 10]), ("clang++", 17, True, cases[half + 3 * n // 10:])]
    for cxx, std, utf8, cs in plan:
        futs += ck.batch(cs, renderer(std, utf8), args=[ck.seed, 150 if ck.quick else 500], link=objs, per=6, timeout=300, handle=handle, flags=FAST, cxx=cxx, std="c++%d" % std, name="l%s%d%d" % (cxx[0], std, utf8))

    def text(cxx, std, utf8, n):
        exe = ck.path("lit%d" % n)
        ok, e = ck.compile(os.path.join(LIB, "main_lit.cpp"), exe, cxx=cxx, std="c++%d" % std, link=[ref], opt="-O1", flags=SAN + (["-DCTRE_STRING_IS_UTF8"] if utf8 else []))
        if not ok:
            if not ck.sanity():
                raise RuntimeError("the library does not build at all")
            raise RuntimeError("text monitor does not build: " + e[-1500:])
        ck.execute(exe, [ck.seed + n, 60000 if ck.quick else 3000000], ["fixed_string"], 900, handle)
    for n, a in enumerate([("g++", 20, False), ("clang++", 20, True), ("g++", 17, True)] if ck.quick else [(c, s, u) for c in ("g++", "clang++") for s in (17, 20) for u in (False, True)]):
        futs.append(ck.pool.submit(text, *a, n))
    ck.wait(futs)
