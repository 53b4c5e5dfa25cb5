"""P21: constant evaluation and run time agree, in every build configuration."""
import random, threading
from harness import *
from core import mods
from p_core import ALL, REALISTIC
import patgen

OPS = ["match", "starts_with", "search", "search_all", "split", "tokenize"]
N = 9
TYPES = {"narrow": ("char", ""), "C string": ("char", ""), "UTF-32": ("char32_t", "U"), "UTF-16": ("char16_t", "u"), "wide": ("wchar_t", "L"), "UTF-8": ("char8_t", "u8")}


class ConstCase:
    def __init__(self, pattern, alphabet, flags, kind, ops):
        self.pattern, self.alphabet, self.flags, self.kind, self.ops, self.subjects = pattern, alphabet, flags, kind, ops, []

    def __str__(self):
        return self.pattern


def chars(kind, cps):
    if kind == "UTF-8":
        return list("".join(map(chr, cps)).encode())
    return [c for c in cps if c < (0x80 if kind in ("narrow", "C string") else 0x10000 if kind == "UTF-16" else 0x110000) and not (0xD800 <= c < 0xE000)]


def render(cases):
    o = ["#include <ctre-unicode.hpp>\n#include \"monconst_gen.hpp\"\nusing namespace mon;\n"]
    for i, c in enumerate(cases):
        T, _ = TYPES[c.kind]
        z = c.kind == "C string"
        o.append('static constexpr auto p%d = ctll::fixed_string{%s"%s"};\n' % (i, "U" if any(ord(x) > 127 for x in c.pattern) else "", cstr(c.pattern)))
        views = []
        for j, s in enumerate(c.subjects):
            u = chars(c.kind, s)
            if z:
                u = [x for x in u if x] + [0]
            if u:  # exactly the subject: a read past it is not a constant expression
                o.append("static constexpr %s t%d_%d[] = {%s};\n" % (T, i, j, ", ".join("%s(%d)" % (T, x) for x in u)))
                views.append("{t%d_%d, %d}" % (i, j, len(u) - (1 if z else 0)))
            else:
                views.append("{}")
        o.append("struct C%d { using Ch = %s; static constexpr bool zero = %s; static constexpr std::basic_string_view<%s> subj[const_subjects] = {%s};\n" % (i, T, "true" if z else "false", T, ", ".join(views)))
        o.append("template <int Op> static constexpr Row ev(std::basic_string_view<%s> s) { return eval_on<%s, %s, Op, p%d%s>(s); } };\n" % (T, T, "true" if z else "false", i, mods(c.flags)))
    o.append("extern const ConstCase const_cases[];\nconst ConstCase const_cases[] = {\n")
    for i, c in enumerate(cases):
        fn = ", ".join("&at_run_time<C%d, %d>" % (i, k) if op in c.ops else "nullptr" for k, op in enumerate(OPS))
        rows = ", ".join("Const<C%d, %d>::rows.data()" % (i, k) if op in c.ops else "nullptr" for k, op in enumerate(OPS))
        o.append('{"%s", "%s", "%s", {%s}, {%s}, &text_of<C%d>},\n' % (cstr(c.pattern), c.kind, cstr(c.alphabet), fn, rows, i))
    o.append("};\nextern const size_t const_case_count;\nconst size_t const_case_count = %d;\n" % len(cases))
    return "".join(o)


G, D, M = "-DCTRE_DISABLE_GREEDY_OPT", "-DCTRE_MSVC_GREEDY_WORKAROUND", "-DCTRE_ENABLE_UTF8_RANGE"
CONFIGS = [
    ("g++", "c++20", "-O0", []), ("g++", "c++20", "-O2", []), ("g++", "c++17", "-O2", []), ("g++", "c++17", "-O0", []), ("g++", "c++20", "-O3", []), ("g++", "c++17", "-O3", []), ("g++", "c++20", "-Os", []), ("g++", "c++23", "-O1", []),
    ("clang++", "c++20", "-O0", []), ("clang++", "c++20", "-O2", []), ("clang++", "c++17", "-O1", []), ("clang++", "c++17", "-O2", []), ("clang++", "c++20", "-O3", []), ("clang++", "c++23", "-Os", []),
    ("g++", "c++20", "-O1", [G]), ("g++", "c++17", "-O2", [G]), ("clang++", "c++20", "-O1", [G]), ("clang++", "c++17", "-O2", [G]),
    ("g++", "c++20", "-O1", [D]), ("g++", "c++17", "-O2", [D]), ("clang++", "c++20", "-O2", [D]), ("clang++", "c++17", "-O0", [D]), ("g++", "c++20", "-O2", [G, D]), ("clang++", "c++20", "-O1", [G, D]),
    ("g++", "c++20", "-O2", [M]), ("clang++", "c++20", "-O2", [M, "-fno-exceptions", "-fno-rtti"]), ("g++", "c++20", "-O2", ["-fno-exceptions", "-fno-rtti", "-funsigned-char"]), ("clang++", "c++17", "-O2", ["-funsigned-char"]), ("g++", "c++20", "-O2", ["-D_GLIBCXX_ASSERTIONS"]), ("g++", "gnu++20", "-O2", ["-march=native"]), ("g++", "gnu++17", "-O1", ["-DCTRE_ENABLE_LITERALS"]),
]


def label(cfg):
    return " ".join([cfg[0], cfg[1], cfg[2]] + cfg[3])


def p21(ck):
    r = random.Random("P21-%d" % ck.seed)
    k = 1 if ck.quick else 6
    cases = []
    ops = lambda n: r.sample(OPS, n)
    kinds = ["narrow"] * 6 + ["C string", "UTF-32", "UTF-16", "wide"]
    for p, a in REALISTIC:
        cases.append(ConstCase(p, a, r.choice([0, 0, 0, 1, 2]), r.choice(kinds), ops(4)))
    # repetition and what follows: the shortcuts that the switches turn off
    atoms = ["a", "[ab]", ".", "(?:ab)", "(?:a|b)", "(a)", r"\w", "[^b]", "(?:a|ab)", "(?:a?)", "(ab?)", "(?:a*b)"]
    tails = ["", "a", "b", "ab", "[^a]", "$", r"\b", "b*", "(?:b|c)", "(?=b)", "(b)", ".", "b?a", "a{2}", "(?:|a)"]
    systematic = [a + q + t for a in atoms for q in ("*", "+", "{1,}", "{2,}", "{0,2}", "{1,3}", "?", "*?", "+?", "*+", "++", "{2}") for t in tails]
    for p in r.sample(systematic, 60 * k):
        cases.append(ConstCase(p, "abc", r.choice([0, 0, 0, 1, 2]), r.choice(kinds), ops(3)))
    for p in patgen.many(r, 70 * k, None, **ALL):
        cases.append(ConstCase(p, "ab\n", r.choice([0, 0, 1, 2, 3]), r.choice(kinds), ops(3)))
    for p in patgen.many(r, 15 * k, None, letters="aé€", **ALL) + ["é+€", "[é-ř]+", "(é|a)*€?", r"\p{L}+", r"\p{Lu}?\p{Ll}+", r"\P{L}", r"[\p{Greek}\d]+", r"\p{Script=Latin}+a", r"\p{Alphabetic}\b", r"é(?<=é)a?", "(.)\\1", "^.+?$", r"\p{Emoji}", r"\p{Block=Basic_Latin}+", r"\p{age=1.1}"]:
        cases.append(ConstCase(p, "aé€b", r.choice([0, 0, 2]), r.choice(["UTF-32", "UTF-32", "UTF-8", "UTF-8", "UTF-16", "wide"]), ops(3)))
    seen, uniq = set(), []
    for c in cases:
        if (c.pattern, c.kind) not in seen:
            seen.add((c.pattern, c.kind))
            uniq.append(c)
    cases = uniq
    r.shuffle(cases)
    # subjects of the constant evaluations
    gen = ck.path("gensub")
    ok, e = ck.compile(os.path.join(LIB, "main_gensub.cpp"), gen, std="c++17", link=[ck.reflib()], opt="-O1", inc=[])
    if not ok:
        raise RuntimeError(e[-2000:])
    esc = lambda s: s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t")
    inp = "".join("%d\t%d\t%s\t%s\n" % (ck.seed * 1000 + i, N - 1, esc(c.pattern), esc(c.alphabet)) for i, c in enumerate(cases))
    out = subprocess.run([gen], input=inp.encode(), stdout=subprocess.PIPE, timeout=120).stdout.decode().split("\n")
    for c, line in zip(cases, out):
        if line == "!":
            raise RuntimeError("reference parser: " + c.pattern)
        c.subjects = [[]] + [[int(x, 16) for x in s.split()] for s in line.split("\t")]
        assert len(c.subjects) == N, (c.pattern, line)
    main = ck.path("main_const.o")
    ok, e = ck.compile(os.path.join(LIB, "main_const.cpp"), main, std="c++17", opt="-O1", inc=[])
    if not ok:
        raise RuntimeError(e[-2000:])
    results = {}
    lock = threading.Lock()

    def collect(cfg):
        def handle(rec):
            if "case" in rec:
                with lock:
                    results.setdefault((rec["case"], rec["kind"]), []).append((label(cfg), rec))
                ck.add(rec["evals"], 0, None, **{"evaluations_by_constant_expression": N * len(rec["rows"])})
        return handle
    futs = []
    per = 6
    used = {}
    deck = []
    for n, i in enumerate(range(0, len(cases), per)):
        group = cases[i:i + per]
        cfgs = [CONFIGS[0]]
        for _ in range(3 if ck.quick else 8):
            if not deck:
                deck = CONFIGS[1:]
                r.shuffle(deck)
            cfgs.append(deck.pop())
        for j, cfg in enumerate(dict.fromkeys((c[0], c[1], c[2], tuple(c[3])) for c in cfgs)):
            cfg = (cfg[0], cfg[1], cfg[2], list(cfg[3]))
            sel = [c for c in group if c.kind != "UTF-8" or cfg[1] not in ("c++17", "gnu++17")]
            used[label(cfg)] = used.get(label(cfg), 0) + len(sel)
            if sel:
                futs += ck.batch(sel, render, args=[ck.seed, 120, int(j == 0)], link=[main, ck.path("ref.o")], per=per, timeout=600, handle=collect(cfg), cxx=cfg[0], std=cfg[1], opt=cfg[2], flags=cfg[3], name="x%d_%d_" % (n, j))
    ck.wait(futs)
    compared = 0
    for (pat, kind), recs in results.items():
        base = [x for x in recs if x[0] == label(CONFIGS[0])]
        if not base:
            continue
        _, b = base[0]
        if len(recs) > 1:
            ck.add(0, 1 if b["hits"] and b["hits"] < b["evals"] else 0, {"pattern": pat, "subjects": kind, "configurations": [x[0] for x in recs]} if r.random() < .1 else None)
        for lab, rec in recs:
            if rec is b:
                continue
            for op, rows in rec["rows"].items():
                want = b["rows"][op]
                compared += N + len(b["subjects"])
                if rows == want:
                    continue
                for j in range(N):
                    if rows[j] != want[j]:
                        ck.violation(kind="configurations differ", pattern=pat, what=op, kind_of_subject=kind, configuration=lab, baseline=label(CONFIGS[0]), subject=str(next((c.subjects[j] for c in cases if c.pattern == pat and c.kind == kind), "")), got=rows[j], want=want[j])
                        break
                else:
                    at = next((q for q in range(0, len(want[N]), 4) if rows[N][q:q + 4] != want[N][q:q + 4]), 0)
                    ck.violation(kind="configurations differ", pattern=pat, what=op, kind_of_subject=kind, configuration=lab, baseline=label(CONFIGS[0]), subject=b["subjects"][at // 4], got=rows[N][at:at + 4], want=want[N][at:at + 4])
    ck.cov["rows_compared_between_configurations"] = compared
    ck.cov["patterns_by_configuration"] = used
    ck.rule = "each pattern's operations on fixed subjects evaluated by the compiler as constant expressions on arrays of exactly the subject (undefined behaviour makes them ill-formed) and again at run time, in a baseline configuration and in several others dealt from %d (gcc, clang, three standards, optimisation levels, the library's switches); rows of captures also on 120 random subjects compared between the configurations" % len(CONFIGS)
