"""P15: memory safety and undefined behaviour, watched by sanitizers, checking containers and checking iterators."""
import random
from harness import *
from core import mods
from p_core import ALL, REALISTIC
import patgen, shapes

HEAD = '''#include <ctre-unicode.hpp>
#include "monmem.hpp"
using namespace mon;
template <typename Cat> using It = Counting<char, Cat>;
#define OPS(K, CONTIG, SETUP, ...) \\
template <ctll::fixed_string P, typename... M> void K##_match(const char * b, size_t n) { SETUP touch<CONTIG>(ctre::match<P, M...>(__VA_ARGS__), lo, hi, tot); } \\
template <ctll::fixed_string P, typename... M> void K##_starts_with(const char * b, size_t n) { SETUP touch<CONTIG>(ctre::starts_with<P, M...>(__VA_ARGS__), lo, hi, tot); } \\
template <ctll::fixed_string P, typename... M> void K##_search(const char * b, size_t n) { SETUP touch<CONTIG>(ctre::search<P, M...>(__VA_ARGS__), lo, hi, tot); } \\
template <ctll::fixed_string P, typename... M> void K##_search_all(const char * b, size_t n) { SETUP touch_all<CONTIG>(ctre::search_all<P, M...>(__VA_ARGS__), lo, hi, tot); } \\
template <ctll::fixed_string P, typename... M> void K##_split(const char * b, size_t n) { SETUP touch_all<CONTIG>(ctre::split<P, M...>(__VA_ARGS__), lo, hi, tot); } \\
template <ctll::fixed_string P, typename... M> void K##_tokenize(const char * b, size_t n) { SETUP touch_all<CONTIG>(ctre::tokenize<P, M...>(__VA_ARGS__), lo, hi, tot); }
#define BUF(C, Z) Exact<C> x(b, n, Z); const void * lo = x.p; const void * hi = x.p + x.n; size_t tot = x.n; (void)lo; (void)hi;
OPS(ptr, true, BUF(char, false), x.p, x.p + x.n)
OPS(sv, true, BUF(char, false), std::string_view(x.p, x.n))
OPS(cstr, true, BUF(char, true), static_cast<const char *>(x.p))
OPS(wcstr, true, BUF(wchar_t, true), static_cast<const wchar_t *>(x.p))
OPS(u8, true, BUF(char8_t, false), std::u8string_view(x.p, x.n))
OPS(u16, true, BUF(char16_t, false), std::u16string_view(x.p, x.n))
OPS(u32, true, BUF(char32_t, false), std::u32string_view(x.p, x.n))
#define HOLD(...) __VA_ARGS__ x(b, b + n); const void * lo = nullptr; const void * hi = nullptr; size_t tot = n; (void)lo; (void)hi;
OPS(list, false, HOLD(std::list<char>), x)
OPS(deque, false, HOLD(std::deque<char>), x)
OPS(flist, false, HOLD(std::forward_list<char>), x)
#define HOLDC(...) HOLD(__VA_ARGS__) lo = x.data(); hi = x.data() + x.size();
OPS(vector, true, HOLDC(std::vector<char>), x)
OPS(string, true, HOLDC(const std::string), x)
#define ITER(CAT) BUF(char, false) using I = It<CAT>; I ib{x.p, x.p, x.p + x.n}, ie{x.p + x.n, x.p, x.p + x.n}; Stop<char> is{x.p + x.n}; (void)ie; (void)is;
OPS(fwd, false, ITER(std::forward_iterator_tag), ib, is)
OPS(bidi, false, ITER(std::bidirectional_iterator_tag), ib, ie)
OPS(rand, false, ITER(std::random_access_iterator_tag), ib, ie)
mon::Seen & mem_seen() { return mon::seen; }
template <typename W> long taken(W & w) { long n = w.bad_read + w.bad_step; w = {}; return n; }
long mem_bad() { return taken(It<std::forward_iterator_tag>::work) + taken(It<std::bidirectional_iterator_tag>::work) + taken(It<std::random_access_iterator_tag>::work); }
'''
OPS = ["match", "starts_with", "search", "search_all", "split", "tokenize"]


class MemCase:
    def __init__(self, pattern, alphabet, flags, entries):
        self.pattern, self.alphabet, self.flags, self.entries = pattern, alphabet, flags, entries

    def __str__(self):
        return self.pattern


def render(cases):
    o = [HEAD, "const MemCase mem_cases[] = {\n"]
    for c in cases:
        es = ", ".join('{"%s %s", &%s_%s<"%s"%s>}' % (op, k, k, op, cstr(c.pattern), mods(c.flags)) for k, op in c.entries)
        o.append('{"%s", "%s", %d, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, es))
    o.append("};\nconst size_t mem_case_count = sizeof(mem_cases) / sizeof(mem_cases[0]);\n")
    return "".join(o)


def forward_ok(p, flags):
    return not any(x in p for x in (r"\b", r"\B", "(?<=", "(?<!"))


def p15(ck):
    r = random.Random("P15-%d" % ck.seed)
    k = 1 if ck.quick else 6
    pats = []
    edge = [(r"\b", "a "), (r"\B", "a "), (r"a\b", "a "), (r"\ba", "a "), ("^", "a\n"), ("$", "a\n"), (r"\A", "a\n"), (r"\Z", "a\n"), (r"\z", "a\n"), ("(?<=a)b", "ab"), ("(?<!a)b", "ab"), ("(?<=ab)", "ab"), ("(?<!ab)a", "ab"), ("(?<=a*)b", "ab"), ("(?<=a+b)a", "ab"),
            ("(?<=^a)b", "ab\n"), (r"(?<=\ba)b", "ab "), ("a(?=b)", "ab"), ("a(?!b)", "ab"), ("(?=ab)a", "ab"), ("abc", "abc"), ("abcdefgh", "abcdefgh"), ("a*", "ab"), ("a+", "ab"), ("a{3}", "ab"), ("a{2,}", "ab"), ("a{2,4}?", "ab"), ("a*+b", "ab"), ("a++", "ab"),
            (r"(a)\1", "ab"), (r"(a+)b\1", "ab"), (r"(ab)?\1", "ab"), (r"(a)|b\1", "ab"), ("(?>a+)b?", "ab"), ("(?>ab|a)", "ab"), ("()", "a"), ("(a)?", "ab"), ("(?:(a)|(b))*", "ab"), (".", "a\n"), ("..", "a\n"), (".*", "a\n"), (".*?a", "ab"), ("[^a]", "ab"), ("[a-b]+", "abc"),
            (r"\w+\s*", "a "), (r"\r\n|\n", "a\r\n"), ("", "a"), ("a|", "ab"), ("|a", "ab"), (r"\xC3", "a"), ("é", "a"), ("[à-ÿ]+", "a"), (r"\p{L}", "a"), (r"\p{Lu}+", "aA"), (r"\P{L}", "a1"), ("(?:é|€)+", "a"), ("(?<=é)a", "a"), (r"(é|a)\1", "a"), (r"[^é]", "a"), ("😀", "a"), ("a😀?", "a"),
            (",", "a,"), (r"\s*,\s*", "a ,"), ("a?,b?", "ab,"), ("(,)", "a,"), ("([a-z]+)=([0-9]*)", "a=1"), ("a.b.c", "abc"), ("(a)(b)?(c)?", "abc"), ("((a)|b)+?c", "abc"), (r"(?m)^a$", "a\n"), (r"(?m)\Z", "a\n"), (r"(?i)aB", "aAbB"), (r"(?i)(a)\1", "aA")]
    for p, a in edge:
        pats.append((p, a, 0))
        pats.append((p, a, r.choice([1, 2, 2, 3])) if all(ord(x) < 128 for x in p) and "\\p" not in p.lower() else (p, a, 2))
    for p, a in REALISTIC:
        pats.append((p, a, r.choice([0, 0, 2])))
    pats = r.sample(pats, min(len(pats), 130 * k))
    pats += [(p, a, r.choice([0, 0, 1, 2])) for p, a in r.sample(shapes.scale("tame"), 20 * k)]
    for p in patgen.many(r, 70 * k, None, **ALL):
        pats.append((p, "ab\n ", r.choice([0, 0, 1, 2])))
    for p in patgen.many(r, 30 * k, None, behind=6, backref=5, ahead=4, wordb=5, anchor=5, string=4, letters="ab"):
        pats.append((p, "ab\n ", r.choice([0, 2])))
    san, dbg = [], []
    for p, a, f in pats:
        narrow = all(ord(x) < 128 for x in p) and "\\p" not in p.lower() and r"\x" not in p
        kinds = (["ptr", "sv", "cstr", "cstr", "wcstr", "u8", "u8", "u16", "u32", "bidi", "rand"] + (["fwd"] if forward_ok(p, f) else [])) if narrow else ["u8", "u8", "u32"]
        san.append(MemCase(p, a, f, list(dict.fromkeys((r.choice(kinds), r.choice(OPS)) for _ in range(4)))))
        if narrow and r.random() < .5:
            kinds = ["list", "deque", "vector", "vector", "string"] + (["flist"] if forward_ok(p, f) else [])
            dbg.append(MemCase(p, a, f, list(dict.fromkeys((r.choice(kinds), r.choice(OPS)) for _ in range(3)))))
    main = ck.obj("main_mem.cpp", "main_mem.o", std="c++20", flags=["-fsanitize=address"])
    objs = [ck.reflib(), main]
    runs = {}

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if rec["results"] > rec["failed"] else 0, {"pattern": rec["case"], "runs": rec["evals"], "results": rec["results"], "failed_results": rec["failed"], "unset_captures": rec["unset"], "accessor_values": rec["accessors"]} if r.random() < .05 else None,
                   patterns=1, results=rec["results"], failed_results=rec["failed"], unset_captures=rec["unset"], accessor_values=rec["accessors"])
    for c in san + dbg:
        for kd, op in c.entries:
            runs[kd] = runs.get(kd, 0) + 1
    ck.cov["instances_by_subject_kind"] = runs
    ck.rule = "all operations on subjects in exactly sized heap buffers (pointer ranges, views, zero-terminated, UTF-8/16/32; address and undefined-behaviour sanitizers), through checking iterators (forward with sentinel, bidirectional, random access) and in checking containers (_GLIBCXX_DEBUG); subjects include truncated and malformed UTF-8 and embedded zeros; every accessor of every capture of every result, also failed ones, is evaluated; non-trivial: some result was a match"
    half = len(san) // 2
    futs = ck.batch(san[:half], render, args=[ck.seed, 1 if ck.quick else 3], link=objs + ["-fsanitize=address,undefined"], per=7, timeout=600, handle=handle, flags=FAST + SAN, name="g")
    futs += ck.batch(san[half:], render, args=[ck.seed, 1 if ck.quick else 3], link=objs + ["-fsanitize=address,undefined"], per=7, timeout=600, handle=handle, flags=FAST + SAN, name="c", cxx="clang++")
    futs += ck.batch(dbg, render, args=[ck.seed, 1 if ck.quick else 3], link=objs + ["-fsanitize=address,undefined"], per=7, timeout=600, handle=handle, flags=FAST + SAN + ["-D_GLIBCXX_DEBUG"], name="d")
    ck.wait(futs)
