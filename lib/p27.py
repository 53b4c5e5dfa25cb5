"""P27: the building blocks of CTLL as values: fixed strings built at run time (fuzzed under sanitizers, own decoder), and
type lists through random histories of operations against a plain list."""
import random
from harness import *

CONFIGS = [("g++", "c++20", []), ("g++", "c++17", ["-DCTRE_STRING_IS_UTF8"]), ("clang++", "c++20", ["-DCTRE_STRING_IS_UTF8"]), ("clang++", "c++17", []),
           ("g++", "c++20", ["-DCTRE_STRING_IS_UTF8", "-funsigned-char"]), ("g++", "c++20", ["-funsigned-char"])]


class Config:
    def __init__(self, cxx, std, defs):
        self.cxx, self.std, self.defs = cxx, std, defs
        self.pattern = "%s -std=%s %s" % (cxx, std, " ".join(defs))

    def __str__(self):
        return self.pattern


def fuzz_text(rounds):
    def render(cases):
        return '#include "monfix.hpp"\nint main(int argc, char ** argv) { unsigned long seed = 1; for (int i = 1; i < argc; ++i) if (!std::strncmp(argv[i], "--seed=", 7)) seed = std::strtoul(argv[i] + 7, nullptr, 10); mon::fuzz(seed, %d); std::printf("{\\"done\\": 1}\\n"); }\n' % rounds
    return render


LIST_HEAD = r'''#include <ctll.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
template <int I> struct e {};  struct none {};
template <int I> int num(e<I>) { return I; }
inline int num(none) { return -1; }
template <typename... Ts> void tell(int h, int s, ctll::list<Ts...>, long extra) {
	std::printf("{\"h\": %d, \"s\": %d, \"extra\": %ld, \"l\": [", h, s, extra);
	bool first = true;
	((std::printf("%s%d", first ? "" : ",", num(Ts{})), first = false), ...);
	std::printf("]}\n");
}
'''


class History:
    """a random sequence of operations on a type list; every intermediate list and answer is reported"""

    def __init__(self, r, n):
        self.steps, self.expect = [], []
        span = r.choice([2, 4, 10])
        cur = []
        tl = lambda x: "ctll::list<%s>" % ", ".join("e<%d>" % i for i in x)
        for k in range(n):
            prev = "l%d" % k
            x = r.randrange(span)
            other = [r.randrange(span) for _ in range(r.choice([0, 1, 2, 3, 5]))]
            op = r.choice(["push", "push", "pop", "popget", "front", "rotate", "concat", "concat2", "exists", "add", "add", "remove", "remove", "pushlist", "pushpop", "pushpop2", "size", "epsilon", "empty"])
            extra = "0"
            want = 0
            new = list(cur)
            ty = "decltype(%s)" % prev
            if op == "push":
                ty, new = "decltype(ctll::push_front(e<%d>{}, %s))" % (x, prev), [x] + cur
            elif op == "pop":
                ty, new = "decltype(ctll::pop_front(%s))" % prev, cur[1:]
            elif op == "popget":
                if r.random() < .5 or cur:
                    g = "ctll::pop_and_get_front(%s, none{})" % prev
                    extra, want = "num(decltype(%s.front){})" % g, cur[0] if cur else -1
                else:
                    g = "ctll::pop_and_get_front(%s)" % prev
                    extra, want = "long(std::is_same_v<decltype(%s.front), ctll::_nothing>)" % g, 1
                ty, new = "decltype(%s.list)" % g, cur[1:]
            elif op == "front":
                extra, want = "num(ctll::front(%s, none{}))" % prev, cur[0] if cur else -1
            elif op == "rotate":
                ty, new = "decltype(ctll::rotate(%s))" % prev, cur[::-1]
            elif op == "concat":
                ty, new = "decltype(ctll::concat(%s, %s{}))" % (prev, tl(other)), cur + other
            elif op == "concat2":
                ty, new = "decltype(ctll::concat(%s{}, %s))" % (tl(other), prev), other + cur
            elif op == "exists":
                extra, want = "long(ctll::exists_in(e<%d>{}, %s))" % (x, prev), int(x in cur)
            elif op == "add":
                ty, new = "decltype(ctll::add_item(e<%d>{}, %s))" % (x, prev), cur if x in cur else cur + [x]
            elif op == "remove":
                ty, new = "decltype(ctll::remove_item(e<%d>{}, %s))" % (x, prev), [y for y in cur if y != x]
            elif op == "pushlist":
                ty, new = "decltype(ctll::push_front(%s{}, %s))" % (tl(other), prev), other + cur
            elif op == "pushpop" and cur:
                ty, new = "decltype(ctll::pop_front_and_push_front(e<%d>{}, %s))" % (x, prev), [x] + cur[1:]
            elif op == "pushpop2" and cur:
                ty, new = "decltype(ctll::pop_front_and_push_front(%s{}, %s))" % (tl(other), prev), other + cur[1:]
            elif op == "size":
                extra, want = "long(ctll::size(%s))" % prev, len(cur)
            elif op == "epsilon":
                ty = "decltype(ctll::push_front(ctll::%s{}, %s))" % (r.choice(["epsilon", "pop_input"]), prev)
            elif op == "empty":
                extra, want = "long(ctll::empty(%s))" % prev, int(not cur)
            if len(new) > 14:
                ty, new, extra, want = "ctll::list<>", [], "0", 0
            cur = new
            self.steps.append((ty, extra))
            self.expect.append((want, cur))
        self.pattern = "; ".join(t for t, _ in self.steps[:8])

    def __str__(self):
        return self.pattern


def render_lists(cases):
    o = [LIST_HEAD]
    for i, c in enumerate(cases):
        o.append("void h%d() {\n\t[[maybe_unused]] constexpr ctll::list<> l0{};" % i)
        for k, (ty, extra) in enumerate(c.steps):
            o.append("\t[[maybe_unused]] constexpr %s l%d{};\n\ttell(%d, %d, %s{}, %s);" % (ty, k + 1, c.index, k, "decltype(ctll::concat(l%d, ctll::list<>{}))" % (k + 1), extra))
        o.append("}")
    o.append('int main(int argc, char ** argv) {\n\tint from = 0;\n\tfor (int i = 1; i < argc; ++i) if (!std::strncmp(argv[i], "--from=", 7)) from = std::atoi(argv[i] + 7);')
    o += ["\tif (from <= %d) h%d();" % (i, i) for i in range(len(cases))]
    o.append('\tstd::printf("{\\"done\\": 1}\\n");\n}\n')
    return "\n".join(o)


def p27(ck):
    r = random.Random("P27-%d" % ck.seed)
    rounds = 15000 if ck.quick else 1500000

    def handle_for(conf):
        def handle(rec):
            if "violation" in rec:
                ck.violation(kind="fixed_string", pattern=conf.pattern, what=rec["violation"], type=rec["type"], units=rec["units"], got=rec["got"])
            elif "strings" in rec:
                ck.add(rec["strings"], rec["distinct"] if conf is confs[0] else 0, {"configuration": conf.pattern, **rec} if conf is confs[0] else None, well_formed=rec["well"], ill_formed=rec["ill"], compared_equal=rec["same"], compared_different=rec["different"])
        return handle
    confs = [Config(*c) for c in CONFIGS]
    futs = []
    for n, c in enumerate(confs):
        futs += ck.batch([c], fuzz_text(rounds), args=["--seed=%d" % (ck.seed * 10 + n)], handle=handle_for(c), name="f%d_" % n, cxx=c.cxx, std=c.std, timeout=800,
                         flags=c.defs + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], opt="-O1")
    hist = [History(r, 30) for _ in range(24 if ck.quick else 200)]
    for i, h in enumerate(hist):
        h.index = i

    def lists(rec):
        if "h" in rec:
            h = hist[rec["h"]]
            want = h.expect[rec["s"]]
            if [rec["extra"], rec["l"]] != [want[0], want[1]]:
                ck.violation(kind="list", pattern=h.steps[rec["s"]][0] + " " + h.steps[rec["s"]][1], what="type list", before=h.expect[rec["s"] - 1][1] if rec["s"] else [], got=[rec["extra"], rec["l"]], expected=[want[0], want[1]])
            ck.add(1, 1 if rec["l"] else 0, list_steps=1)
    futs += ck.batch(hist, render_lists, per=8, handle=lists, name="l")
    futs += ck.batch(r.sample(hist, len(hist) // 3), render_lists, per=8, handle=lists, name="m", cxx="clang++", std="c++17")
    ck.rule = "fixed strings of 1 to 9 units of all five character types, built at run time from well-formed, truncated, overlong, surrogate, out-of-range and random units in exactly allocated memory, under address and undefined-behaviour sanitizers in six configurations: correct(), characters, size, iteration, indexing, view, copies and equality against a decoder of our own; histories of 30 operations on type lists against a plain list; an evaluation is one string or one list operation; distinct: the different strings of the first configuration and the non-empty lists"
    ck.wait(futs)
