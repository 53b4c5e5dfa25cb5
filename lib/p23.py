"""P23: accessors of results agree with each other and with the subject."""
import random, re
from harness import *
from core import mods
from p_core import ALL, REALISTIC
from p15 import forward_ok
import patgen
import shapes as families

OPS = ["match", "starts_with", "search", "search_all", "split", "tokenize"]
# kind -> (char type, contiguous, setup, argument, first iterator, pointer to the text, C++20 only)
KINDS = {
    "view": ("char", 1, "const std::string_view x(s);", "x", "x.begin()", "s.data()", 0),
    "string": ("char", 1, "const std::string & x = s;", "x", "x.begin()", "s.data()", 0),
    "mutable string": ("char", 1, "std::string x = s;", "x", "x.begin()", "x.data()", 0),
    "pointers": ("char", 1, "const char * x = s.data();", "x, x + s.size()", "x", "x", 0),
    "C string": ("char", 1, "s = s.substr(0, s.find('\\0')); const char * x = s.c_str();", "x", "x", "x", 0),
    "mutable pointers": ("char", 1, "char * x = s.data();", "x, x + s.size()", "x", "x", 0),
    "wide view": ("wchar_t", 1, "const std::wstring_view x(s);", "x", "x.begin()", "s.data()", 0),
    "wide C string": ("wchar_t", 1, "const wchar_t * x = s.c_str();", "x", "x", "x", 0),
    "u16 view": ("char16_t", 1, "const std::u16string_view x(s);", "x", "x.begin()", "s.data()", 0),
    "u32 string": ("char32_t", 1, "const std::u32string x(s);", "x", "x.begin()", "x.data()", 0),
    "u8 view": ("char8_t", 1, "const std::u8string_view x(s);", "x", "x.data()", "s.data()", 1),
    "u8 string": ("char8_t", 1, "const std::u8string & x(s);", "x", "s.data()", "s.data()", 1),
    "list": ("char", 0, "const std::list<char> x(s.begin(), s.end());", "x", "x.begin()", "s.data()", 0),
    "deque": ("char", 0, "std::deque<char> x(s.begin(), s.end());", "x", "x.begin()", "s.data()", 0),
    "reverse": ("char", 0, "const std::string t(s.rbegin(), s.rend());", "t.rbegin(), t.rend()", "t.rbegin()", "s.data()", 0),
    "checking iterators": ("char", 0, "using I = Counting<char, std::bidirectional_iterator_tag>; I f{s.data(), s.data(), s.data() + s.size()}, l{s.data() + s.size(), s.data(), s.data() + s.size()};", "f, l", "f", "s.data()", 0),
    "vector": ("char", -1, "const std::vector<char> x(s.begin(), s.end());", "x", "x.begin()", "x.data()", 20),
    "array": ("char", -1, "std::array<char, 700> x{}; std::copy_n(s.data(), std::min<size_t>(s.size(), 700), x.begin()); s.assign(x.data(), 700);", "x", "x.begin()", "x.data()", 0),
}


def groups(p):
    """[(number, name or None)] by opening parenthesis"""
    out, i, n = [], 0, 0
    incls = False
    while i < len(p):
        c = p[i]
        if c == "\\":
            i += 2
            continue
        if incls:
            if p.startswith("[:", i):
                i = p.index(":]", i) + 2
                continue
            incls = c != "]"
        elif c == "[":
            incls = True
            if p.startswith("[^", i):
                i += 1
        elif c == "(":
            if not p.startswith("(?", i):
                n += 1
                out.append((n, None))
            else:
                m = re.match(r"\(\?<([A-Za-z_]\w*)>", p[i:])
                if m:
                    n += 1
                    out.append((n, m.group(1)))
        i += 1
    return out


class AccCase:
    def __init__(self, pattern, alphabet, flags, entries, env):
        self.pattern, self.alphabet, self.flags, self.entries, self.env = pattern, alphabet, flags, entries, env

    def __str__(self):
        return self.pattern


def render(cases):
    o = ["#include <ctre-unicode.hpp>\n#include <algorithm>\n#include \"monacc.hpp\"\nusing namespace mon;\nmon::Acc & acc_state() { return mon::acc; }\nextern const AccCase acc_cases[];\nextern const size_t acc_case_count;\n"]
    tab = []
    names = set()
    for i, c in enumerate(cases):
        std = c.env[0]
        lit = '%s"%s"' % ("U" if any(ord(x) > 127 for x in c.pattern) else "", cstr(c.pattern))
        o.append("static constexpr auto p%d = ctll::fixed_string{%s};\n" % (i, lit))
        P = lit if std != "c++17" else "p%d" % i
        named = [(n, x) for n, x in groups(c.pattern) if x]
        for _, x in named:
            if x not in names:
                names.add(x)
                o.append('static constexpr auto n_%s = ctll::fixed_string{"%s"};\n' % (x, x))
        body = "".join('agree(r.template get<n_%s>(), r.template get<%d>(), "get by a constant name", %d); agree(r.template get<ctre::id<%s>>(), r.template get<%d>(), "get by type", %d); %s ' % (
            x, n, n, ", ".join("'%s'" % y for y in x), n, n, 'agree(r.template get<"%s">(), r.template get<%d>(), "get by name", %d); agree(r.template get<U"%s">(), r.template get<%d>(), "get by U name", %d);' % (x, n, n, x, n, n) if std != "c++17" else "") for n, x in named)
        o.append("template <typename R> void named%d([[maybe_unused]] const R & r) { if (R::count() != %d) wrong(\"number of captures\", long(R::count())); %s bindings(r); }\n" % (i, len(groups(c.pattern)) + 1, body))
        es = ""
        for j, (k, op) in enumerate(c.entries):
            T, contig, setup, arg, first, ptr, _ = KINDS[k]
            K = "Contiguous" if contig == 1 or (contig == -1 and std != "c++17") else "Other"
            pre = "template <int X = 0> static void e%d_%d(const char32_t * b, size_t n) { acc_where = \"%s %s\"; std::basic_string<%s> s = text_as<%s>(b, n); %s " % (i, j, op, k, T, T, setup)
            call = "ctre::%s<%s%s>(%s)" % (op, P, mods(c.flags), arg)
            if OPS.index(op) < 3:
                o.append(pre + "auto r = %s; result<%s>(r, %s, s, %s); named%d(r); }\n" % (call, K, first, ptr, i))
            else:
                o.append(pre + "auto q = %s; long m = 0; for (auto it = q.begin(); it != q.end(); ++it) { const auto & r = *it; result<%s>(r, %s, s, %s); named%d(r); if (++m > 2 * long(s.size()) + 4) break; } }\n" % (call, K, first, ptr, i))
            es += '{"%s %s", &e%d_%d<>}, ' % (op, k, i, j)
        tab.append('{"%s", "%s", %d, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, es))
    o.append("const AccCase acc_cases[] = {\n" + "".join(tab) + "};\nconst size_t acc_case_count = sizeof(acc_cases) / sizeof(acc_cases[0]);\n")
    return "".join(o)


def p23(ck):
    r = random.Random("P23-%d" % ck.seed)
    k = 1 if ck.quick else 8
    numeric = [(p, "019-+.eaf ") for p in (r"(\d+)", r"(-?\d+)", r"[+\-]?\d+", r"([0-9a-f]+)", r"(\d*)\.?(\d*)", r"(?<n>-?\d+)(?:e(?<x>\d+))?", r"(-)?(\d)?", r"([01]+)", r"\s*(\d+)\s*", r"(.*)", r"(.*?)(\d*)$", r"(\d{1,3})", r"(\d{9,12})", r"(-?)(\d+\.\d+(?:e-?\d+)?)", r"([a-f0-9]{1,17})", "(?<year>\\d{4})(?<month>\\d)(?<day>\\d)?", r"\d+|a+|-", "([ +]?\\d+)")]
    shapes = ["a", "", "(a)", "()", "(a)?", "(a)|b", "(a)|(b)", "(a*)", "(a)?(b)?", "(?<x>a)", "(?<x>a)?b", "(?<x>a)|(?<y>b)", "(?<a>a)(?<b>b)(?<c>c)?", "(?<ab>a)(?<a>b)(?<b>c)?", "(?<abc>a)|(?<abd>b)", "(?<x>(?<y>a)b)", "((((a))))", "(?<o>(?<i>a)|b)+", "(a)(b)(c)(a)?(b)?", "(a)(?<n>b)(c)?", "(?=(a))", "(?=(a))a", "(?<=(a))b", "(?<!(a))b", "(?!(a))b", "(a)*?b", "(a)*+", "((a)b?)+", "(?>(a+))", r"(a)\1?", "^(a)?$", r"(\w+) (\w+)", "(?<_>a)(?<a1>b)", ",", "(,)", "(,)?a", "a*", "(a*)(b*)", "(a|ab)(b|)", "a|(b)c?", "(?:(a)|b)*", "(?<first>[a-b]+)=(?<second>[^,]*),?"]
    pats = numeric * 2 + [(p, "abc,= " if any(x in p for x in ",= ") else "abc") for p in shapes] * 2 + [(p, a) for p, a in REALISTIC if r.random() < .5]
    pats += [(p, "ab1 ") for p in patgen.many(r, 40 * k, None, letters="ab1", **dict(ALL, cap=8, named=5))]
    pats += r.sample([x for x in families.scale("tame") if 0 < x[0].replace("(?:", "").count("(") < 11], 14 * k)
    NAMES = ["x", "xy", "xyz", "X", "Xy", "xY", "_x", "x_", "x1", "x12", "x2", "yx", "y", "yz", "__", "_", "name", "named", "names", "nama", "aame", "ab", "ba", "aa", "a", "group1", "group2", "group10", "longer_name_of_a_group", "longer_name_of_a_grouq", "longer_name_of_a_group2"]
    for _ in range(30 * k):
        a = r.choice(NAMES)
        near = [x for x in NAMES if x != a and (x.startswith(a) or a.startswith(x) or x[0] == a[0] or x.lower() == a.lower() or len(x) == len(a))] or NAMES[:3]
        b = r.choice(near)
        rest = [x for x in NAMES if x not in (a, b)]
        c, d = r.sample(rest, 2)
        pats.append((r.choice(["(?<{a}>a)(?<{b}>b)", "(?<{a}>a)?(?<{b}>b)?", "(?<{a}>a)|(?<{b}>b)", "(?<{a}>a(?<{b}>b?))(?<{c}>b)?", "(?<{c}>a)?(?<{a}>b)(?<{b}>a)?(?<{d}>b)", "(a)(?<{a}>b)?(b)(?<{b}>a)", "(?:(?<{a}>a)|(?<{b}>b))+"]).format(a=a, b=b, c=c, d=d), "ab"))
    pats += [(p, "aé€😀") for p in ["(é)(€)?", "(.)", "(?<x>é+)|(a)", ".", "(.*)", "(é*)a", "€+", "(?<=(é)).", "(a)|é", "(😀)?"]]
    ENV = [("c++20", "g++"), ("c++20", "g++"), ("c++20", "clang++"), ("c++17", "g++"), ("c++17", "clang++")]
    decks = {}
    cases = []
    for p, a in pats:
        env = r.choice(ENV)
        wide = any(ord(x) > 127 for x in p)
        kinds = [x for x, v in KINDS.items() if (v[6] != 1 or env[0] != "c++17") and (not wide or x in ("u32 string", "u8 view", "u8 string", "wide view"))]
        key = (env[0], wide)
        es = []
        while len(es) < (4 if ck.quick else 6):
            if not decks.get(key):
                decks[key] = [(x, op) for x in kinds for op in OPS]
                r.shuffle(decks[key])
            e = decks[key].pop()
            if e not in es:
                es.append(e)
        cases.append(AccCase(p, a, r.choice([0, 0, 0, 1, 2]), es, env))
    r.shuffle(cases)
    kinds = {}
    for c in cases:
        for x, op in c.entries:
            kinds[x] = kinds.get(x, 0) + 1
    ck.cov["instances_by_subject"] = kinds
    objs = [ck.reflib(), ck.obj("main_acc.cpp", "main_acc.o", std="c++17")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if rec["set"] and (rec["unset"] or rec["failed"]) else 0, {x: rec[x] for x in ("case", "evals", "results", "set", "unset", "empty")} if r.random() < .05 else None, patterns=1, results=rec["results"], captures=rec["captures"], set=rec["set"], unset=rec["unset"], failed=rec["failed"], empty_captures=rec["empty"], numbers=rec["numbers"])
    ck.rule = "every result of all six operations on %d kinds of subjects: all accessors of the whole and of each capture (views, strings, optionals, conversions, sizes, data, iterators, comparisons with equal and nearby texts, stream output also with width, numbers of ten types and bases, ids, names as constants, literals and types, structured bindings, tuple protocol, copies) against the subject's text between the iterators; non-trivial: groups both set and not set" % len(KINDS)
    futs = []
    for env in sorted(set(ENV)):
        sel = [c for c in cases if c.env == env]
        for c in sel:
            pass
        futs += ck.batch(sel, render, args=[ck.seed, 1 if ck.quick else 4], link=objs, per=6, timeout=600, handle=handle, flags=FAST, name="e%s%s" % (env[0][-2:], env[1][0]), std=env[0], cxx=env[1])
    ck.wait(futs)
