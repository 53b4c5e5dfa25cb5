"""P16: UTF-8 subjects are matched by code point."""
import random
from harness import *
from core import mods
from p_core import ALL
import patgen

HEAD = '''#include <ctre-unicode.hpp>
#include "monutf.hpp"
using namespace mon;
#define SV8 std::u8string_view(b, n)
#define ST8 std::u8string(b, n)
#define Z8 b
#define SV32 std::u32string_view(b, n)
#define ONE(NAME, OP, T, ARG) template <ctll::fixed_string P, typename... M> void NAME(SeqRes & out, const void * v, size_t n) { (void)n; auto b = static_cast<const T *>(v); grab(out, ctre::OP<P, M...>(ARG), b); }
#define MANY(NAME, OP, T, ARG) template <ctll::fixed_string P, typename... M> void NAME(SeqRes & out, const void * v, size_t n) { auto b = static_cast<const T *>(v); grab_all(out, ctre::OP<P, M...>(ARG), b, 2 * n + 4); }
#define SETS(M_, OP) M_(OP##_sv, OP, char8_t, SV8) M_(OP##_z, OP, char8_t, Z8) M_(OP##_32, OP, char32_t, SV32)
// results point into the string object: offsets relative to it
#define ONEST(OP) template <ctll::fixed_string P, typename... M> void OP##_st(SeqRes & out, const void * v, size_t n) { const std::u8string s(static_cast<const char8_t *>(v), n); grab(out, ctre::OP<P, M...>(s), s.data()); }
#define MANYST(OP) template <ctll::fixed_string P, typename... M> void OP##_st(SeqRes & out, const void * v, size_t n) { std::u8string s(static_cast<const char8_t *>(v), n); grab_all(out, ctre::OP<P, M...>(s), static_cast<const char8_t *>(s.data()), 2 * n + 4); }
SETS(ONE, match) SETS(ONE, starts_with) SETS(ONE, search) SETS(MANY, search_all) SETS(MANY, split) SETS(MANY, tokenize)
ONEST(match) ONEST(starts_with) ONEST(search) MANYST(search_all) MANYST(split) MANYST(tokenize)
'''
OPS = ["match", "starts_with", "search", "search_all", "split", "tokenize"]
LETTERS = "aéř€ア😀𝄞"


class UtfCase:
    def __init__(self, pattern, alphabet, flags, entries):
        self.pattern, self.alphabet, self.flags, self.entries = pattern, alphabet, flags, entries

    def __str__(self):
        return self.pattern


def render(cases):
    o = [HEAD, "const UtfCase utf_cases[] = {\n"]
    for c in cases:
        pre = "U" if any(ord(x) > 127 for x in c.pattern) else ""
        inst = '%s"%s"%s' % (pre, cstr(c.pattern), mods(c.flags))
        es = ", ".join('{"%s %s", &%s_%s<%s>, &%s_32<%s>, %s}' % (op, k, op, k, inst, op, inst, "true" if k == "z" else "false") for k, op in c.entries)
        o.append('{"%s", "%s", %d, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, es))
    o.append("};\nextern const size_t utf_case_count;\nconst size_t utf_case_count = sizeof(utf_cases) / sizeof(utf_cases[0]);\n")
    return "".join(o).replace("const UtfCase utf_cases[]", "extern const UtfCase utf_cases[];\nconst UtfCase utf_cases[]")


def p16(ck):
    r = random.Random("P16-%d" % ck.seed)
    k = 1 if ck.quick else 6
    fixed = [".", "..", "é", "[é-ř]+", "[^é]", "[^a]+", "😀", "😀+", "(?:é|€)*", "(é)(€)?", "a.", ".a", ".*é", ".+?€", r"\w+", r"\W", r"\bé", r"\b", r"\B.", r"a\b.", r"\s", "é{2}", "é{1,2}?a", "(.)\\1", "(é|a)b?\\1", "(.+)\\1", "(?<x>.)a\\g{x}", "(?=é).", "(?!é).", "(?<=é).", "(?<!é).", "(?<=é€)a", "(?<!€).a", "(?<=.)é", "(?<=[é€]{2})a", "(?<=é+)a", "^é", "é$", r"\Aé", r"é\z", "^.$", "^", "$", "", "é|", "(?>é+)a", "(?>.)é", "é++", "[é€]*+a", "�", "[�]", "[^�]", "a�", "�+", r"\x{FFFD}", r"(?<=�).", r"\p{L}+", r"\p{Ll}", r"\P{L}", r"\p{So}", r"\p{Latin}+", r"[^\p{L}]+", r"\x{1F600}", r"[\x{80}-\x{10FFFF}]+", r"[\x{800}-\x{FFFF}]", "ア|a", "a?ア", "(a|ř)+𝄞", "((é)|(a))+", "é.*?€", ".{3}", ".{2,}é", "[aéř]+[€ア]", "[a-é]", "(?:a*)é", r"\d|é", "[[:alpha:]]é", "é(?=€)", "(a)|(é)|(😀)", "a(?<=(.))", r"(?<=\bé)a", r".(?<!\w)"]
    cases = []
    kinds = ["sv", "sv", "sv", "st", "z"]
    ent = lambda n: list(dict.fromkeys((r.choice(kinds), r.choice(OPS)) for _ in range(n)))
    for p in r.sample(fixed, min(len(fixed), 90)) * (1 if ck.quick else 3):
        cases.append(UtfCase(p, LETTERS + r.choice(["", "\n", " b", "1"]), r.choice([0, 0, 0, 1, 2]), ent(3)))
    for p in patgen.many(r, 60 * k, None, letters="aé€", **dict(ALL, behind=5, backref=5, any=5, set=5)):
        cases.append(UtfCase(p, "aé€😀", 0, ent(2)))
    for p in patgen.many(r, 30 * k, None, letters="ř😀b", **dict(ALL, behind=3, any=5, set=5)):
        cases.append(UtfCase(p, "bř😀\nA", r.choice([0, 1, 2, 3]), ent(2)))
    objs = [ck.reflib(), ck.obj("main_utf8.cpp", "main_utf8.o", std="c++17")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if rec["hits"] else 0, {"pattern": rec["case"], "subjects_x_operations": rec["evals"], "matches": rec["hits"], "with_malformed": rec["malformed"], "with_multi_unit": rec["nonascii"]} if r.random() < .05 else None,
                   patterns=1, matches=rec["hits"], with_malformed=rec["malformed"], with_multi_unit_characters=rec["nonascii"])
        if "decoder" in rec:
            ck.add(rec["decoder"], 0, None, decoded_strings=rec["decoder"], decoded_units=rec["units"], defective_sequences=rec["defective"])
    ck.rule = "every operation on a UTF-8 subject (view, string, zero-terminated) against the same operation on its code points (defective sequences as U+FFFD), all spans of all captures of all results mapped to unit offsets; subjects of 1 to 4 unit characters, half of them with malformed pieces; and the decoder forwards and backwards on all strings of one and two units, representative three and four unit strings, all encoded code points up to 0x1FFFFF and random strings; non-trivial: something matched"
    futs = ck.batch(cases, render, args=[ck.seed, 220 if ck.quick else 600], link=objs, per=9, timeout=600, handle=handle, flags=FAST, name="u")

    def decoder():
        exe = ck.path("decoder")
        ok, e = ck.compile(os.path.join(LIB, "utf8_decoder.cpp"), exe, link=[], opt="-O1", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
        if not ok:
            if not ck.sanity():
                raise RuntimeError("the library does not build at all")
            raise RuntimeError("decoder monitor does not build: " + e[-1500:])
        ck.execute(exe, [ck.seed, 300000 if ck.quick else 5000000], ["utf8_range"], 800, handle)
    futs.append(ck.pool.submit(decoder))
    ck.wait(futs)
