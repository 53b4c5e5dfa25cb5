"""P28: regular expressions combined with | and >> against the reference engine on the text of the combination."""
import random, re
from harness import *
from core import run_core_with
from p_core import ALL
import patgen, shapes

LEAVES = ["a", "b", "ab", "ba", "", "a|b", "a|", "|a", "a*", "a+", "a?", "a*?", "a+?", "a??", "a*+", "a++", "a{2}", "a{1,2}", "a{2,}?", ".", ".*", ".*?", "[ab]", "[^a]", "[ab]*", "[^b]+", "^", "$", "^a", "a$", "^|a", "b|$", r"\b", r"\B", r"\A", r"\z", r"\Z", "(a)", "(a|b)", "(a)*", "(?:ab)*", "(?:a|ab)", "(?:a*|b)", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a*)", "(?>a|ab)", "(?=a*)", "(?<n>a+)", "a(b)?", "aab|a", "abab", "b+", "b*?", "(?:a|b)*", "(?:a|b)+?", "[ab]{0,2}", r"\w", r"\W?", "(?:)", "a.b"]

# {k} stands for the number of the leaf's k-th group
REFS = [r"(a|b)\{1}", r"(a|ab)(b?)\{2}a?", r"(a+)b\g<1>", r"(?:(a)|(b))\{2}?", r"(.)\g{-1}", r"((a)|b)*(?=\{1})", r"(a|b)(?:b\{1})+", r"(?<w>a|b)\g{w}", r"(.)(?<!\{1}b)", r"(a?)(?>\{1}*)", r"(a|b)(?!\{1})", r"(a|b)(.)\{1}*?\{2}"]


class Node:
    def __init__(self, op, kids, leaf=None):
        self.op, self.kids, self.leaf = op, kids, leaf

    def leaf_text(self, before):
        t = re.sub(r"\\\{(\d)\}", lambda m: "\\g{%d}" % (int(m[1]) + before), self.leaf)
        return re.sub(r"\\g<(\d)>", lambda m: "\\g{%d}" % (int(m[1]) + before), t)

    def groups(self):
        return len(re.findall(r"(?<!\\)\((?!\?)|\(\?<\w", self.leaf)) if self.op is None else sum(k.groups() for k in self.kids)

    def leaves(self):
        return [self.leaf] if self.op is None else sum((k.leaves() for k in self.kids), [])

    def text(self, before=0):
        if self.op is None:
            return self.leaf_text(before)
        out = []
        for k in self.kids:
            out.append("(?:%s)" % k.text(before))
            before += k.groups()
        return ("|" if self.op == "|" else "").join(out)

    def expr(self, lit):
        if self.op is None:
            return ('"%s"_ctre' if lit else 'ctre::re<"%s">()') % cstr(self.leaf_text(0))
        return "(" + (" %s " % self.op).join(k.expr(lit) for k in self.kids) + ")"


class OpCase:
    tag = "operators"

    def __init__(self, node, alphabet, flags, lit):
        self.node, self.alphabet, self.flags, self.lit = node, alphabet, flags, lit
        self.pattern = node.text()

    def __str__(self):
        return self.node.expr(False)


HEAD = '''#include <ctre-unicode.hpp>
#include "mon.hpp"
#include <string_view>
using namespace ctre::literals;
'''


def render(cases):
    o = [HEAD]
    for i, c in enumerate(cases):
        e = c.node.expr(c.lit)
        m = "multiline_" if c.flags & 2 else ""
        for k, f in (("m", "match"), ("s", "search"), ("S", "starts_with")):
            o.append("static mon::Res f%s%d(const char * b, const char * e) { return mon::conv(%s.%s%s(std::string_view(b, size_t(e - b))), b); }\n" % (k, i, e, m, f))
    o.append("const mon::Case mon_cases[] = {\n")
    for i, c in enumerate(cases):
        o.append('{"%s", "%s", "%s", %d, {&fm%d, &fs%d, &fS%d}},\n' % (cstr(c.pattern), c.tag, cstr(c.alphabet), c.flags, i, i, i))
    o.append("};\nconst size_t mon_case_count = sizeof(mon_cases) / sizeof(mon_cases[0]);\n")
    return "".join(o)


def p28(ck):
    r = random.Random("P28-%d" % ck.seed)
    k = 1 if ck.quick else 8
    pool = LEAVES + patgen.many(r, 60 * k, None, **dict(ALL, backref=0, named=0, depth=2))
    cases, seen = [], set()

    def leaf():
        return Node(None, [], r.choice(REFS if r.random() < .15 else LEAVES if r.random() < .7 else pool))

    def tree(d):
        if d == 0 or r.random() < .25:
            return leaf()
        return Node(r.choice(["|", ">>", ">>"]), [tree(d - 1) for _ in range(r.choice([2, 2, 2, 3]))])

    def add(n):
        t = n.text()
        names = [w for x in n.leaves() for w in re.findall(r"\(\?<(\w+)>", x)]
        if t in seen or len(t) > 120 or len(names) > len(set(names)) or n.groups() > 9:
            return
        seen.add(t)
        cases.append(OpCase(n, ("abc" if "c" in t else "ab") + r.choice(["", "", "\n", " "]), r.choice([0, 0, 0, 2]), r.random() < .5))
    for _ in range(90 * k):  # pairs
        add(Node(r.choice(["|", ">>", ">>"]), [leaf(), leaf()]))
    for _ in range(50 * k):  # operands which begin or end alike
        x = r.choice(shapes.TWINS)
        t = r.sample(["", "b", "c", "a", "b?", "[bc]", "(b)", "(?:b|c)", x], 2)
        n = Node(r.choice(["|", "|", ">>"]), [Node(None, [], x + u if r.random() < .8 else u + x) for u in t])
        add(n if r.random() < .6 else Node(r.choice(["|", ">>"]), r.sample([n, leaf()], 2)))
    for _ in range(120 * k):
        n = tree(r.choice([2, 2, 3]))
        if n.op:
            add(n)
    ck.rule = "pairs and trees of | and >> over expressions of all kinds (in place and as literals, single- and multi-line); success, span and every group (numbered through, left to right) of match, search and starts_with against the reference engine on the combined text; a combination is non-trivial if it matched some subjects and rejected some"
    run_core_with(ck, cases, render, exhaustive=300, samples=120, randoms=40, captures=True)
    lits = [c for c in r.sample(cases, len(cases) // 3) if c.lit]
    run_core_with(ck, lits, render, exhaustive=200, samples=60, randoms=20, captures=True, cxx="clang++", std="c++17", name="n")
