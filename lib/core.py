"""Cases for the core monitor (match / search / starts_with against the reference engine)."""
from harness import *


class Case:
    def __init__(self, pattern, tag="", alphabet="ab", flags=0, ops="msS"):
        self.pattern, self.tag, self.alphabet, self.flags, self.ops = pattern, tag, alphabet, flags, ops

    def __str__(self):
        return self.pattern


def mods(flags):
    m = ""
    if flags & 1:
        m += ", ctre::case_insensitive"
    if flags & 2:
        m += ", ctre::multiline"
    return m


HEAD = '''#include <ctre-unicode.hpp>
#include "mon.hpp"
#include <string_view>
using namespace mon;
template <ctll::fixed_string P, typename... M> Res fm(const char * b, const char * e) { return conv(ctre::match<P, M...>(std::string_view(b, size_t(e - b))), b); }
template <ctll::fixed_string P, typename... M> Res fs(const char * b, const char * e) { return conv(ctre::search<P, M...>(std::string_view(b, size_t(e - b))), b); }
template <ctll::fixed_string P, typename... M> Res fw(const char * b, const char * e) { return conv(ctre::starts_with<P, M...>(std::string_view(b, size_t(e - b))), b); }
'''


def render(cases):
    o = [HEAD, "const Case mon_cases[] = {\n"]
    for c in cases:
        lit = cstr(c.pattern)
        pre = "" if all(ord(x) < 128 for x in c.pattern) else "U"
        f = []
        for k, fn in (("m", "fm"), ("s", "fs"), ("S", "fw")):
            f.append('&%s<%s"%s"%s>' % (fn, pre, lit, mods(c.flags)) if k in c.ops else "nullptr")
        o.append('{"%s", "%s", "%s", %d, {%s}},\n' % (lit, c.tag, cstr(c.alphabet), c.flags, ", ".join(f)))
    o.append("};\nconst size_t mon_case_count = sizeof(mon_cases) / sizeof(mon_cases[0]);\n")
    return "".join(o)


def run_core(ck, cases, **kw):
    run_core_with(ck, cases, render, **kw)


def run_core_with(ck, cases, render, exhaustive=400, samples=120, randoms=40, captures=True, per=24, timeout=400, cxx="g++", std="c++20", flags=None, opt="-O0", name="b"):
    objs = [ck.reflib(), ck.obj("main_core.cpp", "main_core.o", std="c++17")]
    def handle(rec):
        if "case" in rec:
            nt = 1 if rec["hits"] and rec["hits"] < rec["evals"] else 0
            ck.add(rec["evals"], nt, {"pattern": rec["case"], "flags": rec["flags"], "subjects": rec["subjects"], "evals": rec["evals"], "hits": rec["hits"]} if ck.evaluations % 7 == 0 else None,
                   patterns=1, hits=rec["hits"], single_answer=rec["strict"], several_answers=rec["lenient"], reference_out_of_budget=rec["unknown"], captures_compared=rec["capset"])
    futs = ck.batch(cases, render, args=[ck.seed, exhaustive, samples, randoms, int(captures)], link=objs, per=per, timeout=timeout, handle=handle, name=name, cxx=cxx, std=std, flags=FAST if flags is None else flags, opt=opt)
    ck.wait(futs)
