"""P24: single headers and header tree write the same log for the same program."""
import random
from harness import *
from core import mods
from p_core import ALL, REALISTIC
from p15 import forward_ok
import patgen, shapes

# distribution -> (include directories, headers in order)
def where():
    inc, single = os.path.join(REPO, "include"), os.path.join(REPO, "single-header")
    return {
        "tree plain": (inc, ["ctre.hpp"]), "single plain": (single, ["ctre.hpp"]),
        "tree unicode": (inc, ["ctre-unicode.hpp"]), "single unicode": (single, ["ctre-unicode.hpp"]),
        "tree plain then unicode": (inc, ["ctre.hpp", "ctre-unicode.hpp"]), "tree unicode then plain": (inc, ["ctre-unicode.hpp", "ctre.hpp"]),
        "tree pieces": (inc, ["ctll.hpp", "ctre.hpp", "unicode-db.hpp"]),
    }


# kind -> (char type, statement, first, argument, base standard, unicode only)
KINDS = {
    "view": ("char", "const std::string s = text_as<char>(b, n); const std::string_view x(s);", "x.data()", "x", 0, 0),
    "string": ("char", "const std::string x = text_as<char>(b, n);", "x.begin()", "x", 0, 0),
    "C string": ("char", "const std::string s = text_as<char>(b, n); const char * x = s.c_str();", "x", "x", 0, 0),
    "pointers": ("char", "const std::string s = text_as<char>(b, n); const char * x = s.data();", "x", "x, x + s.size()", 0, 0),
    "list": ("char", "const std::string s = text_as<char>(b, n); const std::list<char> x(s.begin(), s.end());", "x.begin()", "x", 0, 0),
    "u32": ("char32_t", "const std::u32string_view x(b, n);", "x.data()", "x", 0, 0),
    "u16": ("char16_t", "const std::u16string x = text_as<char16_t>(b, n);", "x.begin()", "x", 0, 0),
    "wide": ("wchar_t", "const std::wstring x = text_as<wchar_t>(b, n);", "x.begin()", "x", 0, 0),
    "u8 view": ("char8_t", "const std::u8string s = utf8_as<char8_t>(b, n); const std::u8string_view x(s);", "s.data()", "x", 20, 1),
    "u8 string": ("char8_t", "const std::u8string x = utf8_as<char8_t>(b, n);", "x.data()", "x", 20, 1),
}
OPS = ["match", "starts_with", "search", "search_all", "split", "tokenize", "iterator", "range", "filter", "multiline_search", "multiline_split", "literal", "literal range"]


class LogCase:
    def __init__(self, pattern, alphabet, flags, entries):
        self.pattern, self.alphabet, self.flags, self.entries = pattern, alphabet, flags, entries

    def __str__(self):
        return self.pattern


def statement(op, c, P, L, k, std):
    T, setup, first, arg, _, _ = KINDS[k]
    M = mods(c.flags)
    if op in OPS[:3]:
        return "%s one(o, ctre::%s<%s%s>(%s), %s, long(n));" % (setup, op, P, M, arg, first)
    if op in OPS[3:6] or op == "range":
        return "%s many(o, ctre::%s<%s%s>(%s), %s, long(4 * n));" % (setup, op, P, M, arg, first)
    if op == "iterator":
        return "%s long m = 0; for (auto it = ctre::iterator<%s%s>(%s); it != ctre::sentinel && m < 8 * long(n) + 4; ++it, ++m) one(o, *it, %s, long(n));" % (setup, P, M, arg, first)
    if op == "filter":
        return "std::vector<std::string> v; for (size_t i = 0; i <= n; ++i) v.push_back(text_as<char>(b, i)); for (auto && r: v | ctre::search<%s%s>) one(o, r, static_cast<const char *>(nullptr), 0);" % (P, M)
    if op.startswith("multiline"):
        return "%s %s(o, ctre::%s<%s>(%s), %s, long(4 * n));" % (setup, "one" if "search" in op else "many", op, P, arg, first)
    if op == "literal":
        return "using namespace ctre::literals; %s one(o, %s_ctre.search(%s), %s, long(n));" % (setup, L, arg, first)
    return "using namespace ctre::literals; %s many(o, %s_ctre.range(%s), %s, long(4 * n));" % (setup, L, arg, first)


def render(cases, std, heads, literals):
    o = ["".join("#include <%s>\n" % h for h in heads), '#include "monlog.hpp"\nusing namespace mon;\n']
    tab = []
    for i, c in enumerate(cases):
        L = '%s"%s"' % ("U" if any(ord(x) > 127 for x in c.pattern) else "", cstr(c.pattern))
        o.append("static constexpr auto p%d = ctll::fixed_string{%s};\n" % (i, L))
        P = L if std == "c++20" else "p%d" % i
        es = ""
        for j, (k, op) in enumerate(c.entries):
            if op.startswith("literal") and not literals:
                op = "search" if op == "literal" else "range"
            o.append("template <int X = 0> static void e%d_%d(Row & o, const char32_t * b, size_t n) { (void)b; (void)n; %s }\n" % (i, j, statement(op, c, P, L, k, std)))
            es += '{"%s %s", &e%d_%d<>}, ' % (op, k, i, j)
        tab.append('{"%s", "%s", %d, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, es))
    o.append("const LogCase log_cases[] = {\n" + "".join(tab) + "};\nconst size_t log_case_count = sizeof(log_cases) / sizeof(log_cases[0]);\n")
    return "".join(o)


def p24(ck):
    r = random.Random("P24-%d" % ck.seed)
    k = 1 if ck.quick else 6
    dist = where()
    narrow = [x for x, v in KINDS.items() if not v[5]]
    deck = []

    def deal(kinds, n, p):
        es = []
        while len(es) < n:
            if not deck:
                deck.extend((x, op) for x in KINDS for op in OPS)
                r.shuffle(deck)
            x, op = deck.pop()
            if x not in kinds:
                x = r.choice(kinds)
            if op == "filter":
                x = "view"
            if x == "list" and op == "literal":
                x = "string"
            if (x, op) not in es:
                es.append((x, op))
        return es
    plain, uni = [], []
    for p, a in r.sample(REALISTIC, 30 if ck.quick else len(REALISTIC)) + [(p, "abAB\n,") for p in ["a", "", "^a|b$", r"\ba", "(?<=a)b", "(a)|(b)", "a*?b", "(?i)aB", "(?m)^a$", "[^a]+", "a{2,3}?", r"\Aa\Z", r"a\z", r"(a)\1", r"(?<n>a)\g{n}b", "(?>a+)b", "(?!a)b", "(?<!a)b", "a++b", "[[:alpha:]]+", "[[:^alpha:]]", r"[\w,]+", r"\x61|\x{62}", r"\h|\v|\N", r"\R?a" if 0 else "a,b", ".+"]]:
        plain.append(LogCase(p, a, r.choice([0, 0, 1, 2, 3]), deal(narrow, 4, p)))
    for p in patgen.many(r, 50 * k, None, **ALL):
        plain.append(LogCase(p, "abB\n", r.choice([0, 0, 1, 2, 3]), deal(narrow, 4, p)))
    wide = ["é", "[é-ř]+", "[^é]", "(?:é|€)*", "(.)\\1", "(?<=é).", r"\w+", r"\bé", ".{2}", r"\p{L}+", r"\p{Lu}", r"\P{L}", r"\p{So}", r"\p{Greek}", r"\p{scx=Latin}+", r"\p{block=Arrows}", r"\p{age=5.2}", r"\p{Emoji}", r"\p{Any}", r"\p{ASCII}+", r"\p{Nd}+", r"\p{script=Han}", r"[\p{Ll}\d]+", r"[^\p{L}]", r"\p{Alphabetic}*?a", r"\x{1F600}", r"[\x{80}-\x{10FFFF}]+", r"\p{Upper}", r"\p{White_Space}", r"\p{L}&"]
    for p in wide * (1 if ck.quick else 3):
        uni.append(LogCase(p, "aéÉřΩ€中😀1 ᴀ﷐", r.choice([0, 0, 1, 2]), [(x, op if op != "filter" else "range") for x, op in deal(["u32", "u8 view", "u8 string"], 4, p)]))
    for p in patgen.many(r, 20 * k, None, letters="aé€", **ALL):
        uni.append(LogCase(p, "aé€😀", r.choice([0, 1, 2]), [(x, op if op != "filter" else "range") for x, op in deal(["u32", "u8 view", "u8 string"], 4, p)]))
    cat = [LogCase(p, a, f, [("view", ["search", "search_all", "starts_with"][i % 3]), (r.choice(["string", "u32", "pointers", "wide"]), r.choice(OPS[:6]))]) for i, (p, a, f) in enumerate(shapes.catalog())]
    for cs in (plain, uni, cat):
        r.shuffle(cs)
        for c in cs:
            if not forward_ok(c.pattern, c.flags) or True in [op.startswith("multiline") for _, op in c.entries]:
                c.entries = [("string" if x == "list" else x, op) for x, op in c.entries]
    ref, main = ck.reflib(), ck.obj("main_log.cpp", "main_log.o", std="c++17")
    other = "%s#include <string_view>\nint other_unit(const char * b, const char * e) { static constexpr auto p = ctll::fixed_string{\"a(b)?\"}; auto r = ctre::match<p>(std::string_view(b, size_t(e - b))); int n = r ? int(r.template get<1>().size()) : -1; for (auto m: ctre::search_all<p>(b, e)) n += int(m.size()); return n; }\n"
    runs = {}

    def build_and_run(name, cases, d, std, cxx):
        inc, heads = dist[d]
        literals = std == "c++20" or cxx != "g++"
        src, two, exe = ck.path(name + ".cpp"), ck.path(name + "o.cpp"), ck.path(name)
        open(src, "w").write(render(cases, std, heads, literals))
        open(two, "w").write(other % "".join("#include <%s>\n" % h for h in heads))
        ok, err = ck.compile(src, exe, link=[two, main, ref], std=std, cxx=cxx, flags=FAST, inc=[inc])
        for f in (src, two):
            os.remove(f)
        if not ok:
            return None, "\n".join(l for l in err.splitlines() if "error" in l or "undefined" in l or "multiple" in l)[:600] or err[-600:]
        rc, out, err = ck.run([exe, str(ck.seed), "1" if ck.quick else "3", "--from=0"], 300)
        os.remove(exe)
        if rc is None:
            raise Inconclusive("log program ran out of time")
        log, done = {}, None
        for l in out.splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if "done" in x:
                done = "done %s" % x["other"]
            elif "entry" in x:
                log[(x["i"], x["entry"])] = x
            elif "violation" in x or "error" in x:
                done = "%s in %s of %s on %s" % (x.get("violation", "error"), x.get("what"), x.get("pattern"), x.get("subject"))
        return log, done or "ended with %s" % rc

    def group(name, cases, ds, std, cxx):
        res = [(d, build_and_run("%s_%d" % (name, n), cases, d, std, cxx)) for n, d in enumerate(ds)]
        bad = [(d, x[1]) for d, x in res if x[0] is None]
        if bad and len(bad) < len(res):
            ck.violation(kind="does not compile in one distribution only", what=bad[0][0], pattern=" ".join(c.pattern for c in cases)[:300], error=bad[0][1], std=std, compiler=cxx)
        if bad and len(bad) == len(res):
            if len(cases) > 1:
                h = len(cases) // 2
                group(name + "a", cases[:h], ds, std, cxx)
                group(name + "b", cases[h:], ds, std, cxx)
            else:
                with ck.lock:
                    ck.inconclusive.append("%s does not compile in any distribution: %s" % (cases[0], bad[0][1][:200]))
            return
        res = [(d, x) for d, x in res if x[0] is not None]
        d0, (log0, end0) = res[0]
        rows = nonempty = 0
        for d, (log, end) in res[1:]:
            if end != end0:
                ck.violation(kind="ends differently", what="%s / %s" % (d0, d), pattern=" ".join(c.pattern for c in cases)[:300], got=end, expected=end0)
            for key, x in log0.items():
                y = log.get(key)
                if y is None:
                    continue
                for (s, a), (_, b) in zip(x["rows"], y["rows"]):
                    rows += 1
                    nonempty += "Y" in a
                    if a != b:
                        ck.violation(kind="different log", what="%s / %s" % (d0, d), pattern=x["pattern"], entry=x["what"], subject=s, got=b, expected=a, std=std, compiler=cxx)
                        break
        with ck.lock:
            runs["%s, %s, %s" % (" = ".join(ds), std, cxx)] = runs.get("%s, %s, %s" % (" = ".join(ds), std, cxx), 0) + 1
        ck.add(rows, sum(1 for c in range(len(cases)) if any("Y" in a for (i, _), x in log0.items() if i == c for _, a in x["rows"])), {"patterns": [c.pattern for c in cases][:3], "distributions": ds, "rows": rows} if r.random() < .2 else None, programs=1, rows_with_a_match=nonempty)

    def database():
        logs = {}
        for name, h, inc in (("tree", "unicode-db/unicode-db.hpp", dist["tree plain"][0]), ("single database", "unicode-db.hpp", dist["single plain"][0]), ("tree unicode", "ctre-unicode.hpp", dist["tree plain"][0]), ("single unicode", "ctre-unicode.hpp", dist["single plain"][0])):
            exe = ck.path("db_" + name.replace(" ", "_"))
            ok, err = ck.compile(os.path.join(LIB, "main_uni.cpp"), exe, std="c++17", opt="-O1", flags=["-DDB=<%s>" % h], inc=[inc])
            if not ok:
                logs[name] = "does not compile: " + err[:300]
                continue
            rc, out, err = ck.run([exe], 120)
            logs[name] = out if rc == 0 else "ended with %s" % rc
        if logs["tree"].startswith("does not"):
            with ck.lock:
                ck.inconclusive.append("the database does not compile: " + logs["tree"][:200])
            return
        for name, l in logs.items():
            if l != logs["tree"]:
                diff = [(x, y) for x, y in zip(logs["tree"].splitlines(), l.splitlines()) if x != y]
                ck.violation(kind="different character database", what=name, pattern=(diff or [("", l[:200])])[0][0], got=(diff or [("", l[:200])])[0][1])
        ck.add(0, 9, None, database_values=3 * 9 * 0x110000)
    ENV = [("c++20", "g++"), ("c++20", "clang++"), ("c++17", "g++"), ("c++17", "clang++"), ("c++20", "g++")]
    futs = [ck.pool.submit(database)]
    # the plain programs: both plain flavours and one of the Unicode ones
    ex = ["single unicode", "tree unicode", "tree plain then unicode", "tree unicode then plain", "tree pieces"]
    ex2 = ["tree plain then unicode", "tree unicode then plain", "tree pieces"]
    for n, i in enumerate(range(0, len(plain), 8)):
        std, cxx = ENV[n % len(ENV)]
        futs.append(ck.pool.submit(group, "p%d" % n, plain[i:i + 8], ["tree plain", "single plain", ex[(n + ck.seed) % len(ex)]], std, cxx))
    for n, i in enumerate(range(0, len(uni), 6)):
        cxx = ["g++", "clang++"][n % 2]
        futs.append(ck.pool.submit(group, "u%d" % n, uni[i:i + 6], ["tree unicode", "single unicode", ex2[(n + ck.seed) % len(ex2)]], "c++20", cxx))
    for n, i in enumerate(range(0, len(cat), 20)):
        std, cxx = ENV[n % len(ENV)]
        kind = ["plain", "unicode"][(n + ck.seed) % 2]
        futs.append(ck.pool.submit(group, "c%d" % n, cat[i:i + 20], ["tree " + kind, "single " + kind], std, cxx))
    ck.wait(futs)
    ck.cov["programs_by_configuration"] = runs
    ck.rule = "the same generated programs (two translation units; patterns of all kinds, %d forms of subjects, %d operations, accessors in the log) built against the header tree and the single headers, plain and Unicode, and against mixed and repeated includes of the tree, in C++20 and C++17 by gcc and clang; their complete logs are compared; and every function of the character database over all code points in its four distributions; non-trivial: patterns matching something" % (len(KINDS), len(OPS))
