"""P30: programs importing the module write the same log as programs including the headers."""
import random
from harness import *
from p_core import ALL, REALISTIC
from p15 import forward_ok
import p24, patgen, shapes
from p24 import LogCase, KINDS

# what the module's source imports as std: the installed standard library has no such module, so its headers stand in for it
STD = ["cstdint", "cstddef", "cstdio", "cstring", "cmath", "string", "string_view", "utility", "type_traits", "iterator", "charconv", "limits", "array", "tuple", "memory", "iosfwd", "iostream", "ostream", "sstream", "initializer_list", "optional", "version", "ranges", "algorithm", "compare", "concepts", "functional", "stdexcept", "system_error", "vector", "list", "deque"]
OPS = ["match", "starts_with", "search", "search_all", "split", "tokenize", "iterator", "range", "multiline_match", "multiline_starts_with", "multiline_search", "multiline_search_all", "multiline_split", "multiline_tokenize", "multiline_range", "multiline_iterator", "method"]


def statement(op, P, k, wide):
    T, setup, first, arg, _, _ = KINDS[k]
    base = op[10:] if op.startswith("multiline_") else op
    printed = " { std::ostringstream os; os << %s; o += os.str(); }" if T == "char" and k != "list" else ""
    if base in ("match", "starts_with", "search"):
        return "%s auto r = ctre::%s<%s>(%s); one(o, r, %s, long(n));" % (setup, op, P, arg, first) + (" if (r)" + printed % 'r << "," << r.template get<0>()' if printed else "")
    if base == "iterator":
        return "%s long m = 0; for (auto it = ctre::%s<%s>(%s); it != ctre::%s && m < 8 * long(n) + 4; ++it, ++m) { one(o, *it, %s, long(n));%s }" % (setup, op, P, arg, "multiline_sentinel" if op != base else "sentinel", first, printed and printed % "*it")
    if op == "method":
        return "%s ctre::regular_expression re{ctre::match<%s>}; one(o, re.search(%s), %s, long(n)); many(o, ctre::match<%s>.tokenize(%s), %s, long(4 * n));" % (setup, P, arg, first, P, arg, first)
    return "%s many(o, ctre::%s<%s>(%s), %s, long(4 * n));" % (setup, op, P, arg, first)


def render(cases, heads):
    o = ['#include <charconv>\n#include <ostream>\n#include "monlog.hpp"\n' if heads == "module" else "", "import ctre;\n" if heads == "module" else "".join("#include <%s>\n" % h for h in heads), '#include "monlog.hpp"\nusing namespace mon;\n']
    tab = []
    for i, c in enumerate(cases):
        L = '%s"%s"' % ("U" if any(ord(x) > 127 for x in c.pattern) else "", cstr(c.pattern))
        P = L
        if i % 2:
            o.append("static constexpr ctll::fixed_string p%d{%s};\n" % (i, L))
            P = "p%d" % i
        es = ""
        for j, (k, op) in enumerate(c.entries):
            o.append("template <int X = 0> static void e%d_%d(Row & o, const char32_t * b, size_t n) { (void)b; (void)n; %s }\n" % (i, j, statement(op, P, k, False)))
            es += '{"%s %s", &e%d_%d<>}, ' % (op, k, i, j)
        tab.append('{"%s", "%s", 0, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), es))
    o.append("const LogCase log_cases[] = {\n" + "".join(tab) + "};\nconst size_t log_case_count = sizeof(log_cases) / sizeof(log_cases[0]);\n")
    return "".join(o)


def p30(ck):
    r = random.Random("P30-%d" % ck.seed)
    k = 1 if ck.quick else 6
    inc = os.path.join(REPO, "include")
    # the module
    text = open(os.path.join(REPO, "ctre.cppm")).read()
    text = re.sub(r"^\s*import\s+std\s*;", "".join("#include <%s>\n" % h for h in STD), text, count=1, flags=re.M)
    src, pcm, mobj = ck.path("ctre_module.cppm"), ck.path("ctre.pcm"), ck.path("ctre_module.o")
    open(src, "w").write(text)
    flags = ["-O0", "-w", "-std=c++20", "-fconstexpr-steps=100000000", "-fbracket-depth=4096", "-ftemplate-depth=4096", "-I" + inc]
    rc, _, e = ck.run(["clang++"] + flags + ["--precompile", "-x", "c++-module", src, "-o", pcm], 300)
    rc2 = 0
    if rc == 0:
        rc2, _, e = ck.run(["clang++"] + flags + ["-c", pcm, "-o", mobj], 300)
    if rc != 0 or rc2 != 0:
        ck.violation(kind="the module does not compile", error=e[:800], pattern="", what="ctre.cppm")
        return
    cases = []
    deck = []

    def deal(kinds, n):
        es = []
        while len(es) < n:
            if not deck:
                deck.extend((x, op) for x in kinds_all for op in OPS)
                r.shuffle(deck)
            x, op = deck.pop()
            if x not in kinds:
                x = r.choice(kinds)
            if (x, op) not in es:
                es.append((x, op))
        return es
    kinds_all = ["view", "string", "C string", "pointers", "list", "u32", "u16", "wide"]
    for p, a in r.sample(REALISTIC, 20 if ck.quick else len(REALISTIC)):
        cases.append(LogCase(p, a, 0, deal(kinds_all, 4)))
    for p, a, f in shapes.catalog()[ck.seed % 3::3] if ck.quick else shapes.catalog():
        cases.append(LogCase(p, a, 0, deal(kinds_all, 1)))
    for p in patgen.many(r, 40 * k, None, **ALL):
        cases.append(LogCase(p, "abB\n", 0, deal(kinds_all, 4)))
    for p in ["é", "[é-ř]+", "[^é]", "(?:é|€)*", "(.)\\1", r"\w+", r"\p{L}+", r"\p{Lu}", r"\p{Greek}", r"[\p{Ll}\d]+", r"\x{1F600}", r"\p{Emoji}"]:
        cases.append(LogCase(p, "aéÉřΩ€中😀1 ", 0, deal(["u32", "wide"], 3)))
    for c in cases:
        if not forward_ok(c.pattern, 2):
            c.entries = list(dict.fromkeys(("string" if x == "list" else x, op) for x, op in c.entries))
    r.shuffle(cases)
    ref, main = ck.reflib(), ck.obj("main_log.cpp", "main_log.o", std="c++17")
    other = "%sint other_unit(const char * b, const char * e) { static constexpr ctll::fixed_string p{\"a(b)?\"}; auto r = ctre::match<p>(std::string_view(b, size_t(e - b))); int n = r ? int(r.get<1>().size()) : -1; for (auto m: ctre::search_all<p>(b, e)) n += int(m.size()); return n; }\n"
    heads = {"headers": ["string_view", "ctre.hpp", "unicode-db.hpp"], "module": "module"}
    two = {}
    for d, h in heads.items():
        f = ck.path("other_%s.cpp" % d)
        open(f, "w").write(other % ("#include <string_view>\n" + ("import ctre;\n" if d == "module" else "".join("#include <%s>\n" % x for x in h))))
        two[d] = ck.path("other_%s.o" % d)
        ok, e = ck.compile(f, two[d], cxx="clang++", flags=["-fmodule-file=ctre=" + pcm] if d == "module" else [])
        if not ok:
            if d == "module":
                ck.violation(kind="does not compile with the module only", error=e[:600], pattern="a(b)?", what="second translation unit")
                return
            raise Inconclusive("the headers do not compile: " + e[:300])

    def build(name, cs, d):
        s, exe = ck.path("%s_%s.cpp" % (name, d)), ck.path("%s_%s" % (name, d))
        open(s, "w").write(render(cs, heads[d]))
        fl = ["-fmodule-file=ctre=" + pcm] if d == "module" else []
        obj = exe + ".o"
        ok, err = ck.compile(s, obj, cxx="clang++", flags=FAST + fl)
        if ok:
            rc, _, err = ck.run(["clang++", obj, two[d], main, ref, "-o", exe] + ([mobj] if d == "module" else []), 200)
            ok = rc == 0
        os.remove(s)
        if os.path.exists(obj):
            os.remove(obj)
        if not ok:
            return None, "\n".join(l for l in err.splitlines() if "error" in l or "undefined" in l or "multiple" in l)[:600] or err[-600:]
        rc, out, err = ck.run([exe, str(ck.seed), "1" if ck.quick else "3", "--from=0"], 300)
        os.remove(exe)
        if rc is None:
            raise Inconclusive("log program ran out of time")
        log, done = {}, None
        for l in out.splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if "done" in x:
                done = "done %s" % x["other"]
            elif "entry" in x:
                log[(x["i"], x["entry"])] = x
            elif "violation" in x or "error" in x:
                done = "%s in %s of %s on %s" % (x.get("violation", "error"), x.get("what"), x.get("pattern"), x.get("subject"))
        return log, done or "ended with %s" % rc

    def group(name, cs):
        a, b = build(name, cs, "headers"), build(name, cs, "module")
        if a[0] is None and b[0] is None:
            if len(cs) > 1:
                h = len(cs) // 2
                group(name + "a", cs[:h])
                group(name + "b", cs[h:])
            else:
                with ck.lock:
                    ck.inconclusive.append("%s compiles neither way: %s" % (cs[0], a[1][:200]))
            return
        if a[0] is None or b[0] is None:
            ck.violation(kind="compiles in one way only", what="headers" if b[0] is None else "module", pattern=" ".join(c.pattern for c in cs)[:300], error=(b if b[0] is None else a)[1])
            return
        if a[1] != b[1]:
            ck.violation(kind="ends differently", pattern=" ".join(c.pattern for c in cs)[:300], got=b[1], expected=a[1], what="program")
        rows = hits = 0
        for key, x in a[0].items():
            y = b[0].get(key)
            for (s, u), (_, v) in zip(x["rows"], y["rows"] if y else []):
                rows += 1
                hits += "Y" in u
                if u != v:
                    ck.violation(kind="different log", pattern=x["pattern"], what=x["what"], subject=s, got=v, expected=u)
                    break
        ck.add(rows, sum(1 for c in range(len(cs)) if any("Y" in t for (i, _), x in a[0].items() if i == c for _, t in x["rows"])), {"patterns": [c.pattern for c in cs][:3], "rows": rows} if r.random() < .2 else None, programs=2, rows_with_a_match=hits)
    ck.wait([ck.pool.submit(group, "g%d" % n, cases[i:i + 12]) for n, i in enumerate(range(0, len(cases), 12))])
    ck.rule = "the same generated programs (two translation units; %d exported operations on 8 kinds of subjects, results, accessors and stream output in the log), built by clang once including the headers and once importing the module ctre (its source taken from ctre.cppm, with `import std` replaced by the standard headers); logs compared; non-trivial: patterns matching something" % len(OPS)
