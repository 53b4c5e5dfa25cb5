"""P26: the LL(1) parser library (ctll::parser) for arbitrary grammars. The parser's own event log (which action ran, with
which character, where it stopped) is recorded and checked against a table-driven interpreter of the same grammar."""
import random
from harness import *

CHARS = list("abcd,()1") + list("éêë€😀")


def confuse(r, c):
    """characters which share a part of their value with c, or lie next to it"""
    v = ord(c)
    w = r.choice([v + 0x100, v + 0x100 * r.randint(1, 0x40), v + 0x10000, (v + 0x80) % 0x110000, v ^ 0x20, v ^ 1, v + 1, max(v - 1, 1), v & 0xFF, v & 0x7F, v & 0xFFFF])
    return chr(w) if 0 < w < 0x110000 and not 0xD800 <= w < 0xE000 else "~"

OTHER = "~"
UNIVERSE = frozenset(CHARS + [OTHER])
END = "end"


class G:
    """nonterminals -> alternatives; symbols: ("t", charset) ("n", index) ("a", action)"""

    def __init__(self, r):
        self.r = r
        while not self.attempt():
            pass

    def terminal(self):
        r = self.r
        k = r.random()
        if k < .6:
            return frozenset(r.choice(CHARS))
        if k < .8:
            return frozenset(r.sample(CHARS, r.randint(2, 3)))
        if k < .88:
            return frozenset(r.choice(["abcd", "abcd", "éêë"])[r.randint(0, 1):r.randint(2, 4)])
        if k < .96:
            return UNIVERSE - frozenset(r.sample(CHARS, r.randint(1, 11)))
        return UNIVERSE

    def attempt(self):
        r = self.r
        n = r.randint(1, 6)
        self.alts = []
        for i in range(n):
            alts = []
            for _ in range(r.choice([1, 2, 2, 3, 4])):
                alt = []
                for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
                    k = r.random()
                    alt.append(("t", self.terminal()) if k < .42 else ("n", r.randrange(n)) if k < .8 else ("a", r.randrange(8) if k < .96 else r.choice([20, 21, 22, 30, 31])))
                alts.append(alt)
            self.alts.append(alts)
        # productive, reachable
        self.depth = [10**6] * n
        for _ in range(n + 1):
            for i in range(n):
                self.depth[i] = min(self.depth[i], 1 + min(max([self.depth[v] for k, v in a if k == "n"], default=0) for a in self.alts[i]))
        if max(self.depth) > 10**5:
            return False
        seen, todo = {0}, [0]
        while todo:
            for a in self.alts[todo.pop()]:
                for k, v in a:
                    if k == "n" and v not in seen:
                        seen.add(v)
                        todo.append(v)
        if len(seen) < n:
            return False
        first, null = [frozenset()] * n, [False] * n

        def first_of(seq):
            f = frozenset()
            for k, v in seq:
                if k == "t":
                    return f | v, False
                if k == "n":
                    f |= first[v]
                    if not null[v]:
                        return f, False
            return f, True
        while True:
            before = (list(first), list(null))
            for i in range(n):
                for a in self.alts[i]:
                    f, e = first_of(a)
                    first[i] |= f
                    null[i] |= e
            if before == (first, null):
                break
        follow = [set() for _ in range(n)]
        follow[0].add(END)
        while True:
            before = [set(x) for x in follow]
            for i in range(n):
                for a in self.alts[i]:
                    for p, (k, v) in enumerate(a):
                        if k == "n":
                            f, e = first_of(a[p + 1:])
                            follow[v] |= f
                            if e:
                                follow[v] |= follow[i]
            if before == follow:
                break
        self.table = []
        for i in range(n):
            row = []
            used = set()
            for a in self.alts[i]:
                f, e = first_of(a)
                look = set(f) | (follow[i] if e else set())
                if look & used:
                    return False
                used |= look
                row.append((frozenset(look), a))
            self.table.append(row)
        # no left recursion can be left in an LL(1) grammar unless it is unused; a bound keeps the interpreter honest anyway
        return sum(len(x) for x in self.alts) >= 2

    def run(self, word, actions=True):
        """(accepted, position, log); actions 20..22 stop the parser behind certain characters, 30.. are unknown to the selector"""
        stack, pos, log = [("n", 0)], 0, []
        for _ in range(100000):
            cur = word[pos] if pos < len(word) else END
            if not stack:
                return cur == END, pos, log
            k, v = stack.pop(0)
            if k == "a" and not actions:
                continue
            if k == "a":
                prev = ord(word[pos - 1]) if pos else -1
                if v >= 30:
                    continue  # (only generated where unknown actions are ignored)
                if 20 <= v < 30 and prev == ord("abc"[v - 20]):
                    return False, pos, log
                log.append([v, prev])
            elif k == "t":
                c = cur if cur == END or cur in UNIVERSE else OTHER
                if c not in v:
                    return False, pos, log
                pos += 1
            else:
                c = cur if cur == END or cur in UNIVERSE else OTHER
                for look, alt in self.table[v]:
                    if c in look:
                        stack = list(alt) + stack
                        break
                else:
                    return False, pos, log
        raise RuntimeError("the interpreter does not end")

    def derive(self, limit):
        r, out = self.r, []
        stack = [("n", 0)]
        while stack:
            k, v = stack.pop(0)
            if k == "t":
                c = r.choice(sorted(v))
                out.append(r.choice("~xyzÀ→") if c == OTHER else c)
            elif k == "n":
                alts = self.alts[v]
                if len(out) + len(stack) > limit:
                    d = [max([self.depth[w] for kk, w in a if kk == "n"], default=0) for a in alts]
                    alts = [a for a, x in zip(alts, d) if x == min(d)]
                stack = list(r.choice(alts)) + stack
                if len(stack) > 400:
                    return None
        return "".join(out)

    # -------------------------------------------------------------- C++
    def lit(self, c):
        return "'%s'" % c if ord(c) < 128 else "char32_t{0x%X}" % ord(c)

    def charset(self, cs, param):
        """the forms a set of characters can be written in"""
        r = self.r
        if OTHER in cs:
            out = sorted(UNIVERSE - cs)
            return ["ctll::neg_set<%s>" % ", ".join(map(self.lit, out)) if out else "ctll::anything"]
        cs = sorted(cs)
        if len(cs) == 1:
            return ["ctll::term<%s>" % self.lit(cs[0])] if param or r.random() < .8 else ["ctll::set<%s>" % self.lit(cs[0])]
        s = "".join(cs)
        if (s in "abcd" or s in "éêë") and r.random() < .6:
            return ["ctll::range<%s,%s>" % (self.lit(cs[0]), self.lit(cs[-1]))]
        if param and r.random() < .4:
            return ["ctll::term<%s>" % self.lit(c) for c in cs]
        r.shuffle(cs)
        return ["ctll::set<%s>" % ", ".join(map(self.lit, cs))]

    def text(self, i):
        r = self.r
        o = ["struct G%d {" % i] + ["\tstruct N%d {};" % k for k in range(len(self.alts))] + ["\tusing _start = N0;"]
        for k, row in enumerate(self.table):
            used = frozenset()
            for look, alt in row:
                sym = []
                for p, (kk, v) in enumerate(alt):
                    if kk == "t":
                        # the first one is already known to fit
                        sym.append("ctll::anything" if p == 0 and r.random() < .4 else self.charset(v, False)[0])
                    else:
                        sym.append(("N%d" if kk == "n" else "act<%d>") % v)
                to = "ctll::push<%s>" % ", ".join(sym)
                if not sym and r.random() < .7:
                    to = "ctll::epsilon"
                if len(alt) == 1 and alt[0][0] == "t" and r.random() < .5:
                    to = "ctll::pop_input"
                used |= look
                for f in (self.charset(look - {END}, True) if look - {END} else []):
                    direct = to
                    if f.startswith("ctll::term<") and alt and alt[0][0] == "t" and to.startswith("ctll::push") and r.random() < .7:
                        direct = "ctll::push<%s>" % ", ".join([f] + sym[1:])
                    o.append("\tstatic constexpr auto rule(N%d, %s) -> %s;" % (k, f, direct))
                if END in look:
                    o.append("\tstatic constexpr auto rule(N%d, ctll::epsilon) -> %s;" % (k, "ctll::push<%s>" % ", ".join(sym) if to == "ctll::pop_input" else to))
            left = UNIVERSE - used
            if left and r.random() < .3:
                for f in self.charset(left, True):
                    o.append("\tstatic constexpr auto rule(N%d, %s) -> ctll::reject;" % (k, f))
        return "\n".join(o + ["};"])


class LLCase:
    def __init__(self, g, text, words, ignore):
        self.g, self.text, self.words, self.ignore = g, text, words, ignore
        self.pattern = text

    def __str__(self):
        return self.text


HEAD = r'''#include <ctll.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
template <int I> struct act: ctll::action {};
template <int I, long C> struct ev {};
struct Log {
	template <int I, auto V, typename... E> static constexpr auto apply(act<I>, ctll::term<V>, ctll::list<E...> l) {
		if constexpr (I >= 20 && I < 30 && long(V) == long("abc"[(I - 20) % 3])) return ctll::reject{};
		else if constexpr (I >= 30) return l;
		else return ctll::list<E..., ev<I, long(V)>>{};
	}
	template <int I, typename... E> static constexpr auto apply(act<I>, ctll::epsilon, ctll::list<E...> l) {
		if constexpr (I >= 30) return l; else return ctll::list<E..., ev<I, -1>>{};
	}
};
// the same, but it knows nothing about actions from 30 on
template <int I> struct known { using type = void; };
struct Partial {
	template <int I, auto V, typename... E> static constexpr auto apply(act<I>, ctll::term<V>, ctll::list<E...>) -> std::enable_if_t<(I < 30) && !(I >= 20 && long(V) == long("abc"[(I - 20 + 30) % 3])), ctll::list<E..., ev<I, long(V)>>> { return {}; }
	template <int I, auto V, typename... E> static constexpr auto apply(act<I>, ctll::term<V>, ctll::list<E...>) -> std::enable_if_t<(I >= 20 && I < 30) && long(V) == long("abc"[(I - 20 + 30) % 3]), ctll::reject> { return {}; }
	template <int I, typename... E> static constexpr auto apply(act<I>, ctll::epsilon, ctll::list<E...>) -> std::enable_if_t<(I < 30), ctll::list<E..., ev<I, -1>>> { return {}; }
};
static bool first;
template <int I, long C> void one(ev<I, C>) { std::printf("%s[%d,%ld]", first ? "" : ",", I, C); first = false; }
template <typename... E> void all(ctll::list<E...>) { first = true; (one(E{}), ...); }
template <typename Out> void tell(int g, int w, bool correct, bool plain, Out) {
	std::printf("{\"g\": %d, \"w\": %d, \"ok\": %d, \"correct\": %d, \"plain\": %d, \"pos\": %zu, \"log\": [", g, w, int(Out::is_correct), int(correct && bool(Out{})), int(plain), Out::position);
	all(typename Out::output_type{});
	std::printf("]}\n");
}
'''


def render(cases):
    o = [HEAD]
    body = []
    for i, c in enumerate(cases):
        o.append(c.text.replace("struct G@", "struct G%d" % c.index))
        for j, w in enumerate(c.words):
            o.append('static constexpr auto in_%d_%d = ctll::fixed_string{%s"%s"};' % (c.index, j, "" if all(ord(x) < 128 for x in w) else "U", cstr(w)))
            sel = ("Partial, true" if c.ignore else "Log")
            # without a subject no action is applied, so those which reject say nothing
            plain = "ctll::parser<G%d, in_%d_%d>::correct_with<>" % (c.index, c.index, j)
            if j % 3 == 0:  # neither does a selector get to see the empty subject
                plain = "ctll::parser<G%d, in_%d_%d, %s>::correct_with<>" % (c.index, c.index, j, sel)
            body.append('\tif (from <= %d) tell(%d, %d, ctll::parser<G%d, in_%d_%d, %s>::correct_with<ctll::list<>>, %s, ctll::parser<G%d, in_%d_%d, %s>::output<ctll::list<>>{});' % (i, c.index, j, c.index, c.index, j, sel, plain, c.index, c.index, j, sel))
    o.append("int main(int argc, char ** argv) {\n\tint from = 0;\n\tfor (int i = 1; i < argc; ++i) if (!std::strncmp(argv[i], \"--from=\", 7)) from = std::atoi(argv[i] + 7);")
    o += body
    o.append('\tstd::printf("{\\"done\\": 1}\\n");\n}\n')
    return "\n".join(o)


def p26(ck):
    r = random.Random("P26-%d" % ck.seed)
    k = 1 if ck.quick else 10
    cases, seen = [], set()
    while len(cases) < 150 * k:
        g = G(r)
        ignore = r.random() < .4
        t = g.text(0).replace("struct G0 ", "struct G@ ", 1)
        if t in seen:
            continue
        seen.add(t)
        words = [""]
        for _ in range(30):
            w = g.derive(r.choice([3, 8, 15, 30]))
            if w is not None and len(w) <= 60:
                if "act<2" not in t and not g.run(w)[0]:
                    raise RuntimeError("the interpreter rejects a derived word")
                words.append(w)
                u = list(w)
                for _ in range(r.choice([1, 1, 2])):
                    p, q = r.randrange(len(u) + 1), r.randrange(6)
                    if q == 0 and u:
                        del u[min(p, len(u) - 1)]
                    elif q == 1:
                        u.insert(p, r.choice(CHARS + ["~", "à"]))
                    elif q == 2 and u:
                        u[min(p, len(u) - 1)] = r.choice(CHARS + ["\x7f", "\x80", "ÿ"])
                    elif q == 3:
                        u = u[:p]
                    elif u:
                        p = min(p, len(u) - 1)
                        u[p] = confuse(r, u[p])
                words.append("".join(u))
        words = list(dict.fromkeys(words))
        r.shuffle(words)
        cases.append(LLCase(g, t, words[:16], ignore))
    for i, c in enumerate(cases):
        c.index = i

    def handle(rec):
        if "g" not in rec:
            return
        c = cases[rec["g"]]
        w = c.words[rec["w"]]
        ok, pos, log = c.g.run(w)
        want = dict(ok=int(ok), pos=pos, log=log, correct=int(ok), plain=int(c.g.run(w, actions=False)[0]))
        got = {x: rec[x] for x in want}
        if got != want:
            ck.violation(kind="parse", pattern=c.text[:1500], what="ctll::parser", subject=w, ignore_unknown_actions=c.ignore, got=got, expected=want)
        ck.add(1, 1 if log else 0, {"grammar": c.text[:300], "word": w, "accepted": ok, "position": pos, "actions": len(log)} if r.random() < .004 else None, accepted=int(ok), rejected=int(not ok), actions=len(log))

    ck.rule = "random LL(1) grammars (conflict-free by construction; terminals as single characters, sets, ranges, negated sets and anything, ASCII and beyond; epsilon alternatives; actions anywhere, some rejecting, some unknown to the selector), words derived from them and mutations of those; acceptance, position, and the complete log of actions with their characters against a table-driven interpreter; an evaluation is one word, non-trivial if actions ran"
    ck.wait(ck.batch(cases, render, per=10, handle=handle, name="g"))
    ck.wait(ck.batch(r.sample(cases, len(cases) // 3), render, per=10, handle=handle, name="h", std="c++17", cxx="clang++"))
    ck.wait(ck.batch(r.sample(cases, len(cases) // 5), render, per=10, handle=handle, name="i", std="c++17"))
    ck.wait(ck.batch(r.sample(cases, len(cases) // 5), render, per=10, handle=handle, name="j", cxx="clang++"))
