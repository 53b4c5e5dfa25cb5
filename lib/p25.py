"""P25: operations are pure, repeatable and may run concurrently."""
import random, shutil
from harness import *
from core import mods
from p_core import ALL, REALISTIC
from p15 import forward_ok
import patgen

ONE = ["match", "starts_with", "search"]
MANY = ["search_all", "split", "tokenize"]
FORMS = ["view", "pointers", "list", "u32", "u8", "object", "object list", "stored", "stored copy", "iterator", "interleaved", "filter", "stream", "optional"]


class PureCase:
    def __init__(self, pattern, alphabet, flags, entries):
        self.pattern, self.alphabet, self.flags, self.entries = pattern, alphabet, flags, entries

    def __str__(self):
        return self.pattern


ARG = {"view": ("s.view()", "s.b"), "pointers": ("s.b, s.b + s.n", "s.b"), "list": ("*s.l", "s.l->begin()"), "u32": ("s.wide()", "s.w"), "u8": ("std::u8string_view(reinterpret_cast<const char8_t *>(s.u), s.un)", "reinterpret_cast<const char8_t *>(s.u)")}


def entry(i, j, c, form, op, P, std):
    """(declarations, has prep)"""
    M = mods(c.flags)
    put = "one" if op in ONE else "many"
    tail = "static void e%d_%d(Row & o, const Subj & s, [[maybe_unused]] size_t slot) " % (i, j)
    uses_list = "list" in form
    a, first = ARG.get(form, ARG["view"])
    total = "long(4 * s.n + s.un)"
    if form in ARG:
        return tail + "{ %s(o, ctre::%s<%s%s>(%s), %s, %s); }\n" % (put, op, P, M, a, first, total), False
    if form in ("object", "object list"):
        a, first = ARG["list" if form != "object" else "view"]
        return "static auto obj%d_%d = ctre::%s<%s%s>;\n" % (i, j, op, P, M) + tail + "{ %s(o, obj%d_%d(%s), %s, %s); }\n" % (put, i, j, a, first, total), False
    if form in ("stored", "stored copy", "interleaved"):
        if form == "interleaved" and op in ONE:
            op = MANY[j % 3]
            put = "many"
        T = "decltype(ctre::%s<%s%s>(std::string_view()))" % (op, P, M)
        use = {"stored": "%s(o, kept%d_%d[slot], s.b, %s);" % (put, i, j, total), "stored copy": "auto x = kept%d_%d[slot]; auto y = std::move(x); %s(o, y, s.b, %s);" % (i, j, put, total), "interleaved": "interleaved(o, kept%d_%d[slot], s.b, %s);" % (i, j, total)}[form]
        return "static std::deque<%s> kept%d_%d;\nstatic void q%d_%d(const Subj & s, size_t slot) { if (kept%d_%d.size() == slot) kept%d_%d.push_back(ctre::%s<%s%s>(s.view())); }\n" % (T, i, j, i, j, i, j, i, j, op, P, M) + tail + "{ %s }\n" % use, True
    if form == "iterator":
        T = "decltype(ctre::iterator<%s%s>(std::string_view()))" % (P, M)
        return "static std::deque<%s> kept%d_%d;\nstatic void q%d_%d(const Subj & s, size_t slot) { if (kept%d_%d.size() == slot) kept%d_%d.push_back(ctre::iterator<%s%s>(s.view())); }\n" % (T, i, j, i, j, i, j, i, j, P, M) + tail + "{ walk(o, kept%d_%d[slot], s.b, %s); }\n" % (i, j, total), True
    if form == "filter":
        if op not in ONE:
            op = "search"
        return tail + "{ for (auto && r: *s.parts | ctre::%s<%s%s>) one(o, r, s.b, %s); }\n" % (op, P, M, total), False
    if form == "stream":
        if op in ONE:
            return tail + "{ std::ostringstream x; auto r = ctre::%s<%s%s>(s.view()); x << r << '|' << r.template get<0>(); o += x.str(); }\n" % (op, P, M), False
        return tail + "{ std::ostringstream x; for (auto && r: ctre::%s<%s%s>(s.view())) x << r << '|'; o += x.str(); }\n" % (op, P, M), False
    if form == "optional":
        if op not in ONE:
            op = "search"
        return tail + "{ auto r = ctre::%s<%s%s>(s.view()); auto v = r.to_optional_view(); auto z = r.to_optional_string(); auto q = r.template to_optional_number<long>(); auto d = r.template to_optional_number<double>(); o += v ? std::string(*v) : \"-\"; o += z ? *z : \"-\"; o += q ? std::to_string(*q) : \"-\"; o += d ? std::to_string(*d) : \"-\"; }\n" % (op, P, M), False
    raise ValueError(form)


def render(cases, std="c++20"):
    o = ["#include <ctre-unicode.hpp>\n#include <sstream>\n#include \"monpure.hpp\"\nusing namespace mon;\n"]
    tab = []
    for i, c in enumerate(cases):
        L = '%s"%s"' % ("U" if any(ord(x) > 127 for x in c.pattern) else "", cstr(c.pattern))
        o.append("static constexpr auto p%d = ctll::fixed_string{%s};\n" % (i, L))
        es = ""
        for j, (form, op) in enumerate(c.entries):
            d, prep = entry(i, j, c, form, op, L if std == "c++20" else "p%d" % i, std)
            o.append(d)
            es += '{"%s %s", %s, &e%d_%d}, ' % (op, form, "&q%d_%d" % (i, j) if prep else "nullptr", i, j)
        tab.append('{"%s", "%s", %d, {%s}},\n' % (cstr(c.pattern), cstr(c.alphabet), c.flags, es))
    o.append("const PureCase pure_cases[] = {\n" + "".join(tab) + "};\nconst size_t pure_case_count = sizeof(pure_cases) / sizeof(pure_cases[0]);\n")
    return "".join(o)


def p25(ck):
    r = random.Random("P25-%d" % ck.seed)
    k = 1 if ck.quick else 6
    deck = []

    def deal(n, wide, p, flags):
        es = []
        while len(es) < n:
            if not deck:
                deck.extend((f, op) for f in FORMS for op in ONE + MANY)
                r.shuffle(deck)
            f, op = deck.pop()
            if wide and f not in ("u32", "u8"):
                f = r.choice(["u32", "u8"])
            if "list" in f and not forward_ok(p, flags):
                f = "view" if f == "list" else "object"
            if (f, op) not in es:
                es.append((f, op))
        return es

    def case(p, a, flags=None):
        flags = r.choice([0, 0, 1, 2, 3]) if flags is None else flags
        return PureCase(p, a, flags, deal(5, any(ord(x) > 127 for x in a), p, flags))
    cases = [case(p, a, 0) for p, a in r.sample(REALISTIC, 24 if ck.quick else len(REALISTIC))]
    cases += [case(p, a) for p, a in [(r"(\d+)", "019a"), (r"(-?\d+)(?:\.(\d*))?", "01.-"), (r"\d+|[a-f]+", "019af "), (",", "a,"), (r"\s+", "a \n"), (r"(?<k>\w+)=(?<v>\w*)", "ab1="), ("(a)|(b)|(c)", "abcd"), (r"\b\w", "ab "), ("a*", "ab"), ("(a*)(b)?", "ab"), ("(?<=a)b|a", "ab"), (r"(a+)\1", "ab"), ("(?i)AB", "abAB"), ("(?>a+)b?", "ab"), ("^.*$", "ab\n"), ("", "ab"), ("[[:alpha:]]+", "ab1"), ("(?=(a))a", "ab"), (r"\w{2,3}", "ab1 "), ("(?!ab)..", "ab")]]
    cases += [case(p, "aéÉř€😀1 ") for p in [r"\p{L}+", "é", "(.)\\1", r"\p{Lu}", "[^é]+", r"\w+|\p{So}", "(é|€)+", r"\p{Latin}", r"\P{L}", "."]]
    cases += [case(p, "abB\n") for p in patgen.many(r, 30 * k, None, **ALL)]
    r.shuffle(cases)
    count = {}
    for c in cases:
        for f, _ in c.entries:
            count[f] = count.get(f, 0) + 1
    ck.cov["entries_by_form"] = count
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4", ASAN_OPTIONS="abort_on_error=1:detect_leaks=0")
    aslr = ["setarch", "-R"] if shutil.which("setarch") else []
    ref = ck.reflib()
    lock = threading.Lock()
    mains = {}

    def main_of(kind, cxx, flags, opt):
        with lock:
            if (kind, cxx) not in mains:
                mains[(kind, cxx)] = ck.obj("main_pure.cpp", "main_pure_%s_%s.o" % (kind, cxx[0]), cxx=cxx, std="c++17", flags=["-include", "ctre-unicode.hpp"] + flags, opt=opt)
            return mains[(kind, cxx)]

    def run(name, cs, kind, cxx, scale):
        flags = {"tsan": ["-fsanitize=thread", "-g1"], "plain": [], "valgrind": ["-g1"]}[kind]
        opt = "-O1"
        src, exe = ck.path(name + ".cpp"), ck.path(name)
        open(src, "w").write(render(cs))
        m = main_of(kind, cxx, flags, opt)
        try:
            ok, err = ck.compile(src, exe, link=[m, ref, "-pthread"], cxx=cxx, flags=FAST + flags, opt=opt if kind == "tsan" else "-O0")
        except Inconclusive:
            if len(cs) == 1:
                raise
            ok, err = False, ""
        os.remove(src)
        if not ok:
            if len(cs) > 1:
                h = len(cs) // 2
                run(name + "a", cs[:h], kind, cxx, scale)
                run(name + "b", cs[h:], kind, cxx, scale)
                return
            if not ck.sanity():
                raise RuntimeError("the library does not build at all")
            ck.violation(kind="does not compile", pattern=str(cs[0]), what="compile", error=([l for l in err.splitlines() if "error" in l] or [err])[0][:600])
            return
        mode = "threads" if kind == "tsan" else "history"
        cmd = [exe, str(ck.seed), str(scale), mode]
        if kind == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=77", "--track-origins=no", "--num-callers=12"] + cmd
        rc, out, err = ck.run(cmd, 700, env=env)
        if rc not in (0, None) and kind == "tsan" and "unexpected memory mapping" in err and aslr:
            rc, out, err = ck.run(aslr + cmd, 700, env=env)
        os.remove(exe)
        if rc is None:
            raise Inconclusive("purity monitor ran out of time")
        if rc == -9 or "unexpected memory mapping" in err or "ThreadSanitizer: CHECK failed" in err or "ThreadSanitizer failed to" in err:
            raise Inconclusive("purity monitor was ended: " + err[-200:])
        done = None
        for l in out.splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if "done" in x:
                done = x
            elif "violation" in x:
                ck.violation(**dict(ck.describe(x), kind=x.pop("violation"), tool=kind, compiler=cxx))
            elif "error" in x:
                raise RuntimeError(l)
        pats = " ".join(str(c) for c in cs)[:300]
        if "WARNING: ThreadSanitizer" in err:
            at = err.index("WARNING: ThreadSanitizer")
            ck.violation(kind="data race", pattern=pats, what=err[at:at + 60].split("(")[0], report=err[at:at + 1500])
        elif kind == "valgrind" and "==" in err and rc == 77:
            ck.violation(kind="use of undefined or foreign memory", pattern=pats, what="valgrind", report=err[:1500])
        elif done is None and rc != 0:
            ck.violation(kind="crash", pattern=pats, what="%s ended with %s" % (kind, rc), report=err[-800:])
        if done:
            ck.add(done["ops"] + done["history"], done["pairs"] if kind == "tsan" else len(cs), {"patterns": [str(c) for c in cs][:3], "tool": kind, "calls": done["ops"] + done["history"], "overlapping_calls": done["overlaps"], "pairs": done["pairs"]} if r.random() < .2 else None,
                   programs=1, concurrent_calls=done["ops"], overlapping_pairs_of_calls=done["overlaps"], distinct_overlapping_pairs_of_operations=done["pairs"], calls_in_histories=done["history"], calls_under_memcheck=done["history"] if kind == "valgrind" else 0)
    futs = []
    per = 8
    for n, i in enumerate(range(0, len(cases), per)):
        cs = cases[i:i + per]
        futs.append(ck.pool.submit(run, "t%d" % n, cs, "tsan", "clang++" if n % 3 else "g++", 1 if ck.quick else 6))
        if n % 3 == 0:
            if shutil.which("valgrind"):
                futs.append(ck.pool.submit(run, "v%d" % n, cs, "valgrind", "g++", 1))
        else:
            futs.append(ck.pool.submit(run, "h%d" % n, cs, "plain", "clang++" if n % 2 else "g++", 2 if ck.quick else 12))
    ck.rule = "threads (6 per pattern from a common start, first calls included, and 8 over all patterns of a program) run random operations on shared read-only subjects, pattern objects, ranges, iterators and results under the race detector, with random yields and delays; histories of calls in random order on reused memory with changing content, part of them under memcheck; all logs (spans, texts, numbers) compared; subjects in write-protected pages; non-trivial: distinct pairs of operations observed overlapping in time, and patterns in histories"
    ck.wait(futs)
