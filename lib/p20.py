"""P20: the representation of the subject does not matter."""
import random
from harness import *
from core import mods
from p_core import ALL, REALISTIC
from p15 import forward_ok
import patgen, shapes

OPS = ["match", "starts_with", "search", "search_all", "split", "tokenize"]
# kind -> (setup, argument(s), first iterator, stops at zero, needs only forward)
NARROW = {
    "string": ("std::string x = as<char>(b, n);", "x", "x.begin()", 0),
    "const string": ("const std::string x = as<char>(b, n);", "x", "x.begin()", 0),
    "view inside of a hostile buffer": ("std::string h = as<char>(b, n); std::string big = h + h + h; if (n) { big = std::string(1, h[n - 1]) + h.substr(1) + big + h; } size_t at = n ? n + n : 0; const std::string_view x(big.data() + at, n);", "x", "x.begin()", 0),
    "C string": ("const std::string h = as<char>(b, n); const char * x = h.c_str();", "x", "x", 1),
    "C string, text continues": ("std::string h = as<char>(b, n); h = h.substr(0, h.find('\\0')); std::string t = h + std::string(1, '\\0') + h + h; const char * x = t.c_str();", "x", "x", 1),
    "char array": ("char x[600] = {}; std::string h = as<char>(b, n); std::memcpy(x, h.data(), n < 599 ? n : 599);", "x", "static_cast<const char *>(x)", 1),
    "wide C string": ("const std::wstring h = as<wchar_t>(b, n); const wchar_t * x = h.c_str();", "x", "x", 1),
    "wstring": ("std::wstring x = as<wchar_t>(b, n);", "x", "x.begin()", 0),
    "wide view": ("const std::wstring h = as<wchar_t>(b, n); std::wstring_view x = h;", "x", "x.begin()", 0),
    "u16string": ("const std::u16string x = as<char16_t>(b, n);", "x", "x.begin()", 0),
    "u16 view": ("const std::u16string h = as<char16_t>(b, n); std::u16string_view x = h;", "x", "x.begin()", 0),
    "u32string": ("std::u32string x = as<char32_t>(b, n);", "x", "x.begin()", 0),
    "u8 view": ("const std::u8string h = as<char8_t>(b, n); std::u8string_view x = h;", "x", "x.data()", 0),
    "u8string": ("const std::u8string x = as<char8_t>(b, n);", "x", "x.data()", 0),
    "vector": ("const std::string h = as<char>(b, n); std::vector<char> x(h.begin(), h.end());", "x", "x.begin()", 0),
    "const vector": ("const std::string h = as<char>(b, n); const std::vector<char> x(h.begin(), h.end());", "x", "x.begin()", 0),
    "deque": ("const std::string h = as<char>(b, n); std::deque<char> x(h.begin(), h.end());", "x", "x.begin()", 0),
    "list": ("const std::string h = as<char>(b, n); const std::list<char> x(h.begin(), h.end());", "x", "x.begin()", 0),
    "deque of char32_t": ("const std::u32string h(b, n); std::deque<char32_t> x(h.begin(), h.end());", "x", "x.begin()", 0),
    "span": ("const std::string h = as<char>(b, n); std::span<const char> x(h.data(), h.size());", "x", "x.begin()", 0),
    "own text": ("const MyText x{as<char>(b, n)};", "x", "x.begin()", 0),
    "own mutable": ("const std::string h = as<char>(b, n); MyMutable x{{h.begin(), h.end()}};", "x", "x.begin()", 0),
    "convertible to a view": ("const Convertible x{as<char>(b, n)};", "x", "x.s.data()", 0),
    "pointers": ("const std::string h = as<char>(b, n); const char * x = h.data();", "x, x + n", "x", 0),
    "string iterators": ("std::string x = as<char>(b, n);", "x.begin(), x.end()", "x.begin()", 0),
    "const string iterators": ("std::string x = as<char>(b, n);", "x.cbegin(), x.cend()", "x.cbegin()", 0),
    "list iterators": ("const std::string h = as<char>(b, n); std::list<char> x(h.begin(), h.end());", "x.begin(), x.end()", "x.begin()", 0),
    "deque iterators": ("const std::string h = as<char>(b, n); std::deque<char> x(h.begin(), h.end());", "x.cbegin(), x.cend()", "x.cbegin()", 0),
    "reverse iterators": ("std::string x = as<char>(b, n); x = std::string(x.rbegin(), x.rend());", "x.rbegin(), x.rend()", "x.rbegin()", 0),
    "bidirectional iterators": ("const std::string h = as<char>(b, n); using I = Counting<char, std::bidirectional_iterator_tag>; I f{h.data(), h.data(), h.data() + n}, l{h.data() + n, h.data(), h.data() + n};", "f, l", "f", 0),
    "random access iterators": ("const std::string h = as<char>(b, n); using I = Counting<char, std::random_access_iterator_tag>; I f{h.data(), h.data(), h.data() + n}, l{h.data() + n, h.data(), h.data() + n};", "f, l", "f", 0),
    "bidirectional with sentinel": ("const std::string h = as<char>(b, n); using I = Counting<char, std::bidirectional_iterator_tag>; I f{h.data(), h.data(), h.data() + n}; Stop<char> l{h.data() + n};", "f, l", "f", 0),
    "random access with sentinel": ("const std::string h = as<char>(b, n); using I = Counting<char, std::random_access_iterator_tag>; I f{h.data(), h.data(), h.data() + n}; Stop<char> l{h.data() + n};", "f, l", "f", 0),
    "values": ("const std::string h = as<char>(b, n); ByValue<std::bidirectional_iterator_tag> f{h.data()}, l{h.data() + n};", "f, l", "f", 0),
}
FORWARD = {
    "forward_list": ("const std::string h = as<char>(b, n); const std::forward_list<char> x(h.begin(), h.end());", "x", "x.begin()", 0),
    "forward iterators": ("const std::string h = as<char>(b, n); using I = Counting<char, std::forward_iterator_tag>; I f{h.data(), h.data(), h.data() + n}, l{h.data() + n, h.data(), h.data() + n};", "f, l", "f", 0),
    "forward with sentinel": ("const std::string h = as<char>(b, n); using I = Counting<char, std::forward_iterator_tag>; I f{h.data(), h.data(), h.data() + n}; Stop<char> l{h.data() + n};", "f, l", "f", 0),
    "own type with sentinel": ("const MySentinel x{as<char>(b, n)};", "x", "x.begin()", 0),
    "forward values": ("const std::string h = as<char>(b, n); ByValue<std::forward_iterator_tag> f{h.data()}, l{h.data() + n};", "f, l", "f", 0),
}
NO_SENTINEL = [k for k in NARROW if "sentinel" not in k]  # look-behind needs an end of the subject that can be walked back from
WIDE = {k: NARROW[k] for k in ("wide C string", "wstring", "wide view", "u16string", "u16 view", "u32string", "deque of char32_t")}
WIDE["list of char32_t"] = ("const std::u32string h(b, n); std::list<char32_t> x(h.begin(), h.end());", "x", "x.begin()", 0)
WIDE["vector of wchar_t"] = ("const std::wstring h = as<wchar_t>(b, n); std::vector<wchar_t> x(h.begin(), h.end());", "x", "x.begin()", 0)
WIDE["u16 pointers"] = ("const std::u16string h = as<char16_t>(b, n); const char16_t * x = h.data();", "x, x + n", "x", 0)
WIDE["u32 reverse iterators"] = ("std::u32string x(b, n); x = std::u32string(x.rbegin(), x.rend());", "x.rbegin(), x.rend()", "x.rbegin()", 0)
ALLK = dict(NARROW, **FORWARD, **WIDE)
BASE = {"narrow": ("const std::string h = as<char>(b, n); const std::string_view x(h);", "x", "x.data()", 0), "wide": ("const std::u32string_view x(b, n);", "x", "x.data()", 0)}


def fname(k):
    return "k_" + "".join(c if c.isalnum() else "_" for c in k)


def head(kinds):
    o = ['#include <ctre-unicode.hpp>\n#include "monsubj.hpp"\nusing namespace mon;\n']
    for k, (setup, arg, first, z) in list(BASE.items()) + [(k, ALLK[k]) for k in kinds]:
        for op in OPS:
            f = "grab" if OPS.index(op) < 3 else "grab_all"
            o.append("template <ctll::fixed_string P, typename... M> void %s_%s(SeqRes & out, const char32_t * b, size_t n) { %s %s(out, ctre::%s<P, M...>(%s), %s, long(n)); }\n" % (fname(k), op, setup, f, op, arg, first))
    return "".join(o)


class SubjCase:
    def __init__(self, pattern, alphabet, flags, entries, wide):
        self.pattern, self.alphabet, self.flags, self.entries, self.wide = pattern, alphabet, flags, entries, wide

    def __str__(self):
        return self.pattern


def render(cases):
    o = [head(sorted({k for c in cases for k, _ in c.entries})), "const SubjCase subj_cases[] = {\n"]
    for c in cases:
        inst = '%s"%s"%s' % ("U" if any(ord(x) > 127 for x in c.pattern) else "", cstr(c.pattern), mods(c.flags))
        es = ", ".join('{"%s %s", &%s_%s<%s>, &%s_%s<%s>, %d}' % (op, k, fname("wide" if c.wide else "narrow"), op, inst, fname(k), op, inst, ALLK[k][3]) for k, op in c.entries)
        o.append('{"%s", "%s", %d, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, es))
    o.append("};\nconst size_t subj_case_count = sizeof(subj_cases) / sizeof(subj_cases[0]);\n")
    return "".join(o)


def p20(ck):
    r = random.Random("P20-%d" % ck.seed)
    k = 1 if ck.quick else 8
    deck = {}

    def deal(kinds, n):
        """kinds and operations dealt evenly"""
        out = []
        key = tuple(kinds)
        while len(out) < n:
            if not deck.get(key):
                d = [(x, op) for x in kinds for op in OPS]
                r.shuffle(d)
                deck[key] = d
            out.append(deck[key].pop())
        return list(dict.fromkeys(out))
    pats = [(p, a, r.choice([0, 0, 0, 1, 2])) for p, a in REALISTIC]
    edge = ["a", "", "^", "$", "^a", "a$", r"\ba", r"a\b", r"\B", "(?<=a)b", "(?<!a)b", "(?<=ab)a", "a+", "a*b", "a*?b", "a*+b", "[ab]+", "(a|b)+", r"(a)\1", "(a+)b\\1", "(?=a)", "(?!a).", ".", ".*", ".+?a", "abc", "ab|cd", r"\x{0}", r"\x{0}a", r"a\x{0}?b", "[^a]", "[^a]+b", r"\w+", r"\W", r"\s*a", r"\Aa", r"a\Z", r"a\z", "(a)(b)?", "(?<n>a)|b", "a{2}", "a{1,2}b", "(?>a+)b", "ab(?:ab)*", "a?", "b|", "[a-b]{2,}", "(?:a|ab)(?:b|)", r"\n", r"^a\n", "a\\n$"]
    pats += [(p, "ab\n" if "n" in p else "abc", r.choice([0, 0, 1, 2])) for p in edge]
    pats += [(p, a, r.choice([0, 0, 1, 2])) for p, a in r.sample(shapes.scale("tame"), 20 * k)]
    for p in patgen.many(r, 90 * k, None, **ALL):
        pats.append((p, "ab\n ", r.choice([0, 0, 1, 2, 3])))
    cases = []
    for p, a, f in pats * (1 if ck.quick else 2):
        kinds = list(NARROW)
        es = deal(kinds if "(?<=" not in p and "(?<!" not in p else NO_SENTINEL, 5)
        if forward_ok(p, f):
            es += deal(list(FORWARD), 1)
        cases.append(SubjCase(p, a, f, es[:7], False))
    # the start of a line looks one character back
    for p in ["^", "^a", "a^", "^b*", "(?:^|b)a", r"\n^a", "(^a?)+", "a?^", "^a$", "(?:^a\\n)*^", "^[^b]", "b|^"]:
        cases.append(SubjCase(p, "ab\n", 2, deal(list(FORWARD), 5) + deal(NARROW, 1), False))
    wp = ["é", "é+", "[é-ř]+", "[^é]", "(é|€)*", "(é)(€)?", "a.", r"\bé", r"é\b.", "(.)\\1", "(?<=é).", "(?<!é)€", "(?!é).", "€+?a", "é*+€", "ア|a", "^é", "é$", "[^a]+€", r"\W+", r"\w", "é{2}", "", r"\x{0}é", "[é\\x{0}]+"]
    # characters which look like others (or like the end) when cut to fewer bits
    for p in ["a.b", "a\u0161?b", "[^a]", "a", "b+", "\u0100", "a\u0100*b", "(a)\u0161\\1", "\u0161+a", ".*b", "(?:a|\u0100)*", "[a-c]+", "[^b]+b", r"\w+", r"\x{0}", "(.)\\1", "b$", r"\W+", "^\u2000", "[\u0161-\u0162]"]:
        cases.append(SubjCase(p, "ab\u0100\u0161\u0162\u2000", r.choice([0, 0, 1, 2]), deal(list(WIDE), 5), True))
    for p in wp + patgen.many(r, 25 * k, None, letters="aé€", **ALL):
        cases.append(SubjCase(p, "aé€b", r.choice([0, 0, 2]), deal(list(WIDE), 4), True))
    r.shuffle(cases)
    kinds = {}
    for c in cases:
        for x, op in c.entries:
            kinds[x] = kinds.get(x, 0) + 1
    ck.cov["instances_by_representation"] = kinds
    objs = [ck.reflib(), ck.obj("main_subj.cpp", "main_subj.o", std="c++20")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if rec["hits"] else 0, {"pattern": rec["case"], "comparisons": rec["evals"], "results": rec["hits"]} if r.random() < .05 else None, patterns=1, results=rec["hits"], with_embedded_zero=rec["zeros"])
    ck.rule = "all six operations on the same text in %d representations (strings, views, C strings, arrays, wide/16/32-bit texts, containers, own types, pointer, reverse, checking forward/bidirectional/random access iterators, sentinels, iterators returning values), against a view of exactly the text; offsets of all captures of all results compared; embedded zeros included; non-trivial: something matched" % len(ALLK)
    n = len(cases) * 7 // 10
    futs = ck.batch(cases[:n], render, args=[ck.seed, 1 if ck.quick else 4], link=objs, per=8, timeout=600, handle=handle, flags=FAST, name="g")
    futs += ck.batch(cases[n:], render, args=[ck.seed, 1 if ck.quick else 4], link=objs, per=8, timeout=600, handle=handle, flags=FAST, name="c", cxx="clang++")
    ck.wait(futs)
