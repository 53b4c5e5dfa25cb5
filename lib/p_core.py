"""P01..P05, P07, P08: results of match / search / starts_with against the reference engine."""
import itertools, random
from harness import *
from core import Case, run_core
import patgen, shapes
from shapes import quant_forms

ALL = dict(string=2, named=1, atomic=2, ahead=3, behind=3, backref=3, anchor=3, wordb=2)

REALISTIC = [
    (r"[a-z]+[0-9]+", "ab01 "), (r"([0-9]+):([0-9]+)(?::([0-9]+))?", "01:2"), (r"(\d{4})-(\d{1,2})-(\d{1,2})", "019-"),
    (r"[\w.]+@\w+\.(?:com|org)", "a@.comrg"), (r"^\s*(\w+)\s*=\s*(.*?)\s*$", "a= b"), (r"#([0-9a-fA-F]{2}){3}", "#0aG"),
    (r"\"(?:[^\"\\]|\\.)*\"", "\"\\a"), (r"(?:(?:25[0-5]|2[0-4]\d|1?\d?\d)\.){3}(?:25[0-5]|2[0-4]\d|1?\d?\d)", "0125."),
    (r"<(\w+)>.*?</\1>", "<>/ab"), (r"(a+)+b", "ab"), (r"(a|b|ab)*c", "abc"), (r"[+\-]?\d+(?:\.\d+)?(?:e[+\-]?\d+)?", "0+.-e"),
    (r"(?:foo|foobar|bar)+", "fobar"), (r"\s*([^,]*?)\s*(?:,|$)", "a, "), (r"^(?:a{2,3}|b{1,2}?)+$", "ab"), (r"(.*?),(.*?),(.*)", "a,b"),
    (r"^/([^/]+)(?:/([^/]+))*/?$", "/ab"), (r"(?!a)\w+", "abc"), (r"\b\w{2}\b", "ab c"), (r"(?<=\$)\d+", "$01"), (r"(?<!a)b+", "abc"),
    (r"([a-c])\1+", "abc"), (r"(?>a+)b|a+c", "abc"), (r"a*?b", "abc"), (r"a++b", "abc"), (r"(a*)*b", "abc"), (r"(a?)+b", "abc"),
    (r"(?:a*)+?b", "abc"), (r"x*", "xy"), (r".*x", "xy"), (r".*?x", "xy"), (r".+x.+", "xyz"), (r"[^x]*x[^x]*", "xy"), (r"a{0,3}a", "ab"),
    (r"^$", "a"), (r"^a|b$", "ab"), (r"(a)|(b)|(c)", "abcd"), (r"((a)|(b))+", "abc"), (r"(?:(a)|b)*", "abc"), (r"(a|ab)(c|bcd)(d*)", "abcd"),
    (r"a|", "ab"), (r"|a", "ab"), (r"(|a)+", "ab"), (r"(a|)+", "ab"), (r"(?:|a)b", "ab"), (r"()", "a"), (r"(?:)a", "ab"), (r"(a*)(a*)", "ab"),
    (r"(a*?)(a*)", "ab"), (r"(a+?)(a*)", "ab"), (r"(\w+)\s(\w+)", "ab "), (r"\w+\d", "a1 "), (r"\d+\w", "a1 "), (r"[ab]+b", "abc"), (r"[^b]+b", "abc"),
]


def rnd(ck, n, salt, alphabet_extra="", flags=0, seen=None, tag="random", ops="msS", **cfg):
    r = random.Random("%s-%d-%s" % (ck.pid, ck.seed, salt))
    al = cfg.get("letters", "ab") + alphabet_extra
    return [Case(p, tag, al, flags, ops) for p in patgen.many(r, n, seen, **cfg)]


def pick(ck, items, n, salt):
    """a fixed-size sample of a list: all of it if it is small enough"""
    items = list(dict.fromkeys(items))
    if len(items) <= n:
        return items
    return random.Random("%s-%d-%s" % (ck.pid, ck.seed, salt)).sample(items, n)


def strip_caps_cases(cases):
    return cases


def p01(ck):
    k = 1 if ck.quick else 8
    cases = [Case(p, "realistic", a) for p, a in REALISTIC]
    seen = set()
    cases += rnd(ck, 170 * k, "a", seen=seen)
    cases += rnd(ck, 110 * k, "b", seen=seen, **ALL)
    cases += rnd(ck, 60 * k, "c", seen=seen, letters="abc", string=3, depth=2, alt=50)
    cases += rnd(ck, 50 * k, "d", seen=seen, letters="ab1 ", classes=[r"\w", r"\d", r"\s", r"\W", r"\D", r"\S"], cls=4, set=5, wordb=2)
    cases += rnd(ck, 40 * k, "e", seen=seen, letters="ab", depth=4, seqlen=2, maxgroups=4, rep=45)
    cases += rnd(ck, 30 * k, "f", seen=seen, letters="abcdefg", string=12, char=4, depth=2, seqlen=2)
    cases += [Case(p, "the same twice", "abc") for p in pick(ck, shapes.twins(), 220 * k, "tw")]
    cases += [Case(p, "scale", a) for p, a in pick(ck, shapes.scale(), 110 * k, "sc")]
    ck.rule = "patterns: realistic list, the same construct in two places, large parameters (counts to 101, 20 groups and references to them, 20 alternatives, literals of 65 characters, depth 24, subjects of hundreds of characters), and random (features weighted per family); subjects: all strings over the family's alphabet up to a length, samples of the pattern's language with edits and junk, random; a pattern is non-trivial if it matched some and rejected some; results (success and whole span) compared with the reference engine"
    run_core(ck, cases, exhaustive=500, samples=150, randoms=40, captures=False)


def p02(ck):
    k = 1 if ck.quick else 8
    cases = [Case(p, "realistic", a) for p, a in REALISTIC if "(" in p]
    fixed = [r"(a)|b", r"(?:(a)|b)+", r"(a|b)+", r"((a)|b)+", r"(a)?b", r"(a)*b", r"(?:(a)(b)?)+", r"(a(b)?)+", r"(?<x>a)(?<y>b)?", r"((((a))))",
             r"(a*)(a*)", r"(a*?)(a*)", r"(a+)(a+)", r"(a+?)(a+?)", r"(a?)(a?)", r"(?:(a)|(b)|(ab))+", r"(a|ab)(b|)", r"(?:(a)|(ab))(b?)$", r"(?=(a+))a", r"(?=(a+))(a)",
             r"(?!(a)b)a", r"(?<=(a))b", r"(?<=(a+))b", r"(?>(a+))b", r"(?>(a|ab))b?", r"(?:(?=(a))a|b)+", r"(a){2}", r"(a){1,2}b", r"(a){0,2}?b", r"(a)++b", r"(a|b)*?b",
             r"((a)*|b)c?", r"(()|a)+", r"(a*)+", r"(a*)*", r"(a|)*b", r"(a(?:b(c)?)*)+", r"(?:(a)|(b))(?:(a)|(b))", r"(a)?(b)?(c)?", r"(.)(.)(.)?", r"(.*)(.+)", r"(.*?)(.+?)",
             r"(.+)(b)", r"(\w+?)(b*)$", r"^(.*)(b)(.*)$", r"(?:(a+)|(b+)|(c+))*", r"((?:a|b)+)(c)", r"((?:a|b)+?)(b*)", r"(?<k>a+)=(?<v>b*)", r"(a)((b)|(c))*"]
    cases += [Case(p, "captures", "abc=" if "=" in p and "?=" not in p else "abc") for p in fixed]
    seen = set()
    cap = dict(cap=9, named=3, group=3)
    cases += [Case("(b)?" + p, "context", "abc") for p in pick(ck, shapes.contexts(("(b)", "(a)?", "(b|)", "(?:(b)|a)"), ck.seed), 110 * k, "cx")]
    cases += [Case(p, "the same twice", "abc") for p in pick(ck, [p for p in shapes.twins() if re.search(r"\((?!\?)", p)], 90 * k, "tw")]
    cases += rnd(ck, 200 * k, "a", seen=seen, **cap)
    cases += rnd(ck, 80 * k, "b", seen=seen, letters="abc", **cap)
    cases += rnd(ck, 120 * k, "c", seen=seen, **dict(ALL, **cap))
    cases += rnd(ck, 40 * k, "d", seen=seen, depth=4, seqlen=2, alt=50, **cap)
    cases += [Case(p, "scale", a) for p, a in pick(ck, shapes.scale("captures"), 80 * k, "sc")]
    ck.rule = "as P01, with patterns rich in groups; every group's span (or absence) compared with the reference engine's"
    run_core(ck, cases, exhaustive=400, samples=140, randoms=40)


def p03(ck):
    k = 1 if ck.quick else 5
    Q = quant_forms()
    fol = shapes.followers()
    ovl = shapes.overlaps()
    atoms = ["a", "[ab]", ".", "(?:ab)", "(?:a|b)", "(a)", r"\w", "[^b]", "(?:a|ab)", "(?:aa)", "(?:a?)", "(?:a*b)", "(ab?)", "(?:a+)", "(?:[ab]b)"]
    tails = ["", "a", "b", "ab", "[^a]", "[ab]", "$", r"\b", "b*", "a+", "(?:b|c)", "(?:a|b)", "(?=b)", "(?!a)", "(b)", ".", "b?a", "(?:b?)a", "c", r"\z", "a{2}", "(?:|a)", "[a-c]{2}", r"(?:\b)a"]
    core = [a + q for a in ("a", "[ab]", "(?:ab)", "(?:a|b)", "(a)", "(?:a?)") for q in Q]
    shortcut = [a + q + t for a in atoms for q in ("*", "+", "{1,}", "{2,}", "{0,2}", "{1,3}", "?") for t in tails]
    lazy = [a + q + t for a in atoms for q in Q for t in tails]
    fusion = ["a" + x + "a" + y for x in Q for y in Q] + ["[ab]" + x + "[ab]" + y for x in Q for y in Q] + ["a" + x + "aa" + y for x in Q for y in Q]
    fusion3 = ["a" + x + "a" + y + "a" + z + t for x in ("*", "+", "?", "*?", "++", "{2}") for y in ("*", "+", "?", "+?", "*+", "{1,2}", "") for z in ("*", "+?", "", "{2,}") for t in ("", "b", "a")]
    E = ["(?:^|b)", "(?:b|$)", "(?:a|)", "(?:|a)", "(?:a?)", "(?:a*b?)", r"(?:\b|a)", "(?:(?=b)|a)", "(?:a|(?<=a))", "(?:a|b|$)", "(?:(?!a)|ab?)", "(?:ab|^)", "(?:^a|b)", "(?:ab|a)", "[ab]", "ab", "(?:a|b?)", "(?:a??)", r"(?:a|\B)"]
    fusionE = [e + x + e + y + t for e in E for x in Q for y in Q for t in ("", "a", "b")]
    nested = ["(?:" + a + x + t + ")" + y + t2 for a in ("a", "[ab]", "(?:a|b)") for x in ("*", "+", "?", "{2}", "*?", "*+", "{1,2}") for t in ("", "b") for y in ("*", "+", "?", "{2}", "+?", "++", "{2,3}") for t2 in ("", "a", "b", "$")]
    I = ["{2,1}", "{3,2}", "{2,1}?", "{3,1}?", "{2,1}+", "{4,1}+"]  # never matches
    inverted = ["%s%s%s%s%s" % (x + a + q + y, b, p, z, t) for x, y, z in (("", "", ""), ("(?:", ")?", ""), ("(?:b|", "", ")"), ("(?:", "", "|b)")) for a, b in (("a", "a"), ("[ab]", "[ab]"), ("(?:ab)", "(?:ab)"), ("a", "b"), ("(a)", "b")) for q, p in [(i, j) for i in I for j in ("", "*", "{1,5}", "??", "++") + ("{2,1}",)] + [(j, i) for i in I for j in ("*", "{1,5}", "*?", "?+")] for t in ("", "b")]
    n = lambda x: x * k
    pats = core + pick(ck, inverted, n(70), "inv") + pick(ck, shortcut, n(150), "s") + pick(ck, lazy, n(110), "l") + pick(ck, fusion, n(90), "f") + pick(ck, fusion3, n(40), "f3") + pick(ck, fusionE, n(110), "fe") + pick(ck, nested, n(80), "n")
    pats = list(dict.fromkeys(pats))
    cases = [Case(p, "systematic", "abc" if "c" in p else "ab") for p in pats]
    cases += [Case(p, "follower", "abc") for p in pick(ck, fol, n(260), "fo")] + [Case(p, "overlap", "bcdz1 \n") for p in pick(ck, ovl, n(160), "ov")]
    cases += [Case(p, "upper bound zero", "ab") for p in ("a{0,0}", "a{0,0}b", "(a){0,0}b")]
    cases += rnd(ck, n(60), "ci", "", 1, letters="aAb", rep=60, seqlen=4, depth=1, cap=1, group=1, lazy=10, poss=5)
    cases += rnd(ck, n(50), "a", letters="ab", rep=65, seqlen=4, depth=2, alt=15, set=5, any=3)
    cases += rnd(ck, n(30), "ml", "\n", 2, letters="ab", rep=60, seqlen=4, depth=1, any=6, set=5, anchor=4, cap=1, group=1)
    cases += [Case(p, "scale", a) for p, a in pick(ck, shapes.scale("repeats"), 90 * k, "sc") + pick(ck, shapes.huge(), 45 * k, "hu")]
    cases += [Case(x + q + t, "scale", "ab") for x in ("a", "[ab]", "(?:a|b)") for q in ("{257}", "{256,}", "{257,}?", "{0,257}", "{0,258}?", "{255,257}+", "{1,256}+", "{254,258}?") for t in ("b",)] + [Case(p, "scale", "ab") for p in ("(a){0,257}b", "(a){0,258}?b", "(a){255,257}+b", "(?:ab|a){0,256}?b")]
    ck.rule = "systematic products atom x quantifier (greedy, lazy, possessive, counted) x following element, adjacent and nested repetitions (sampled), plus random; whole span and captures against the reference engine"
    run_core(ck, cases, exhaustive=400, samples=100, randoms=30)


def p04(ck):
    k = 1 if ck.quick else 8
    A = ["^", "$", r"\A", r"\z", r"\Z", r"\b", r"\B"]
    forms = []
    for x in A:
        forms += [x, x + "a", "a" + x, "a" + x + "b", x + ".", "." + x, x + ".*", ".*" + x, x + "a*" + x, "(?:" + x + "|a)b", "a*" + x, "(?:a" + x + "|ab)b?", "(?:" + x + ")?a", "(" + x + ")a", "(?=" + x + ")a?", "a(?!" + x + ").", "[^a]" + x, x + r"\n", r"\n" + x, r"a" + x + r"\n" , "(?:a" + x + ")+", r"\w+" + x, x + r"\w+" + x, r"\s" + x + r"\s?"]
        for y in A:
            forms += [x + y, x + "a" + y, x + ".+?" + y, x + ".*" + y]
    forms = list(dict.fromkeys(forms))
    cases = [Case(p, "search start", "ab", 0, "s") for p in (shapes.anchored(ck.seed) if ck.quick else shapes.anchored())] + [Case(p, "search start", "ab\n", 2, "s") for p in pick(ck, shapes.anchored(), 100 * k, "ancm")]
    for p in pick(ck, forms, 200 * k, "p"):
        cases.append(Case(p, "single-line", "ab\n ", 0))
    for p in pick(ck, forms, 200 * k, "m"):
        cases.append(Case(p, "multi-line", "a\n b", 2))
    cases += [Case(p, "in look-behind", "ab\n", f) for f in (0, 2) for p in shapes.behind_anchors()]
    for p in [r"(?m)^a$", r"(?m)a.b", r"(?s)^a$", r"(?m)(?s)a.b", r"(?m)^", r"(?m)$", r"(?m)^$", r"(?m)\Z", r"(?m)\z", r"(?m)\A.", r"(?m).*$", r"(?m)^.*", r"(?s).*", r"(?m).+\n.+", r"(?ms)^a$", r"(?sm)^a$", r"(?im)^A$", r"(?mi)^A$", r"(?mc)^a.b", r"(?msm)^.$", r"(?icsm)^b", r"(?ism).$", r"a(?m)$", r"^a(?m)$.", r"(?m)^a(?s).b", r"a(?sm)$.(?s)."]:
        cases.append(Case(p, "mode switch", "ab\n", 0))
        cases.append(Case(p, "mode switch", "ab\n", 2))
    cases += [Case(p, "context", "ab\n ", f) for f in (0, 2) for p in pick(ck, shapes.contexts(("^", r"\b", r"\B", "$", r"\Z", r"\A", ".", r"\z"), ck.seed), 170 * k, "cx%d" % f)]
    cases += rnd(ck, 60 * k, "a", " \n", 0, anchor=8, wordb=6)
    cases += rnd(ck, 60 * k, "b", "\n ", 2, anchor=8, wordb=6, any=6)
    cases += rnd(ck, 40 * k, "c", "\n1_-", 0, letters="ab", anchor=2, wordb=10, classes=[r"\w", r"\W"], cls=4)
    ck.rule = "systematic forms of every anchor and boundary (alone, before/after literals, in groups, loops, look-arounds, in pairs), in both line modes, plus random; results against the reference engine"
    run_core(ck, cases, exhaustive=450, samples=80, randoms=60)


def p05(ck):
    k = 1 if ck.quick else 8
    fixed = ["a", "A", "aB", "abC", "[a-c]", "[A-C]", "[^a-c]", "[^A-C]", "[a]", "[^a]", "[^A]", "[aB]", "[W-d]", "[Z-a]", "[@-C]", "[x-~]", r"\x41", r"\x61", "(a)\\1", "(aB)\\1", "(?<n>a)b\\g{n}",
             "a+A", "a*A", "a+b", "A+b", "[a-c]+C", "[a-c]+D", "a*?A", "(?:a|A)b", "(?:a|B)+", "(?=A)a", "(?!A)a", "(?<=A)b", "(?<=aB)c", "(?<!A)b", "(?>a+)B", "a{2}A", "a{1,2}A", "[[:lower:]]", "[[:upper:]]", "[^[:lower:]]",
             "[[:lower:]]+A", r"\w+A", "[^b]+B", "[^B]+b", "a++A", "a++b", "(a|b)+C", "@", "`", r"\[", r"\{", "[@]", "[`]", r"[\[]", r"[\{]", r"\\", r"\|", r"\]", r"\}", "[_]", "~", "K", "k", "S", "1", "[0-9]", "Ab?c", "ab|Ac|aBc"]
    alpha = "aAbBcC"
    cases = [Case(p, "ci", alpha + "d@`[{_1", 1) for p in fixed]
    cases += [Case("(?i)" + p, "(?i)", alpha + "d@`[{_1", 0) for p in pick(ck, fixed, 30 * k, "i")]
    cases += [Case("(?c)" + p, "(?c)", alpha + "d@`[{_1", 1) for p in pick(ck, fixed, 15 * k, "c")]
    cases += [Case("(?i)(?c)" + p, "(?i)(?c)", alpha + "d@`[{_1", 0) for p in pick(ck, fixed, 8 * k, "ic")]
    cases += [Case(x + p, x, alpha + "d@`[{_1", r) for x, r in (("(?im)", 0), ("(?mi)", 0), ("(?ic)", 1), ("(?ci)", 0), ("(?ims)", 0), ("(?isc)", 1), ("(?cmi)", 0)) for p in pick(ck, fixed, 3 * k, x)]
    cases += [Case(p, "inside", alpha, 0) for p in ("a(?i)b", "a(?i)b(?c)c", "a(?im)b+", "(?i)a(?c)b", "[ab](?i)[ab]+", "a+(?i)a+(?c)a", "a(?is)(b)\\1")]
    cases += [Case(p, "cs", alpha + "d@`[{_1", 0) for p in pick(ck, fixed, 30 * k, "s")]
    cases += [Case(p, "overlap", alpha + "dZ1 _", 1) for p in pick(ck, shapes.overlaps(), 70 * k, "ov")]
    cases += [Case(p, "context", alpha, f) for f in (1, 0) for p in pick(ck, [x.replace("\0", "(?i)") for x in shapes.contexts(("B", "A", "[A-B]", "[^B]", "(b)?(?:C|B)") if f else ("\0B", "\0[A-B]"), ck.seed + f) if f or "(?c)" not in x], 110 * k, "cx%d" % f)]
    cases += rnd(ck, 120 * k, "a", "", 1, letters="abAB", **ALL)
    cases += rnd(ck, 60 * k, "b", "@[", 1, letters="aBzZ", set=8, rep=50)
    cases += rnd(ck, 40 * k, "c", "", 1, letters="abAB", string=10, rep=50, depth=2)
    cases += rnd(ck, 30 * k, "d", "", 0, letters="aAbB", set=4)
    cases += rnd(ck, 30 * k, "e", "\n", 3, letters="aB", anchor=3, any=4)
    cases += [Case(p, "scale", a + a.upper()[:2], 1) for p, a in pick(ck, shapes.scale(), 50 * k, "sc")]
    ck.rule = "letters, ranges (also across the two cases), sets, classes, strings, back-references and repetitions with and without case-insensitive matching, over subjects of both cases and the neighbours of the letters; reference engine folds ASCII only"
    run_core(ck, cases, exhaustive=400, samples=120, randoms=60)


def p07(ck):
    k = 1 if ck.quick else 8
    bodies = ["a", "ab", "a+", "a*", "a|b", "a|ab", "ab|a", "[ab]", ".", "(a)", "(a)(b)", "(a|b)", "a?b", "a+?b", "a{2}", "(?:ab)+", "a$", "^a", r"\ba", r"a\b", "", "a|", ".*b", "[^a]", r"\w", "(?=b)", "(?<=a)b", "(?!b)a", "a++", "(?>a|ab)", "(ab?)", "abc", "(a)b*", "(a+)b"]
    pre = ["", "a", "b", "a*", ".", "(a)", "a+?"]
    post = ["", "a", "b", "ab", ".", "$", "b+", "(b)", "\\w*"]
    pats = []
    for b in bodies:
        for x in pre:
            for y in post:
                for o in ("(?=", "(?!", "(?<=", "(?<!", "(?>"):
                    if x + y == "" and o != "(?>" and b == "":
                        continue
                    pats.append(x + o + b + ")" + y)
    quantified = ["(?>" + b + ")" + q + t for b in bodies if b for q in ("+", "*", "?", "{2}", "+?", "++") for t in ("", "a", "b")]
    quantified += ["(?:" + o + b + ")" + t + ")" + q for o in ("(?=", "(?!", "(?<=", "(?<!") for b in ("a", "b", "ab", "a|b", "(a)") for t in ("a", "b", ".") for q in ("+", "*", "{2}", "+?")]
    cases = [Case(p, "look-around", "abc" if "c" in p else "ab") for p in pick(ck, pats, 300 * k, "p") + pick(ck, quantified, 80 * k, "q")]
    cases += [Case(p, "after a repetition", "abc") for p in shapes.look_followers(("", ".b")) + pick(ck, shapes.look_followers(("a", "b", "a*")), 150 * k, "lf")]
    # what is behind the start of a line is still there
    lines = ["%s%s%s%s" % x for x in ((a, b, c, d) for a in ("^", "(?:^|b)", "^b?", "(?=^)", "(^)", r"\n^", "(?<=^)", "^^", "(?>^)", "(?:^){2}", r"\B^", "(?!b)^") for b in (r"(?<=\n)", r"(?<!\n)", r"(?<=a\n)", r"(?<!a\n)", "(?<=.)", r"(?<=[ab]\n)", r"(?<=^\n)", r"(?<=\n\n)", r"(?<!^)", r"(?<=(\n))", r"(?<=a.)", r"(?<=^a\n)") for c in ("", "a", "b*") for d in ("", "$"))]
    cases += [Case(p, "behind a line start", "ab\n", f) for f in (2, 0) for p in pick(ck, lines, (45 if f else 10) * k, "ln%d" % f)]
    cases += [Case(p, "context", "abc") for p in pick(ck, shapes.contexts(("(?<=a)", "(?<!a)", "(?<=^.)", "(?<=ab)", "(?<!^)", "(?<=b)", "(?=b)", "(?!b)"), ck.seed), 160 * k, "cx")]
    cases += [Case(p, "anchor in look-behind", "ab\n", f) for f in (2, 0) for p in pick(ck, shapes.behind_anchors(), 25 * k, "ba%d" % f)]
    cases += rnd(ck, 130 * k, "a", atomic=6, ahead=7, behind=7, depth=3)
    cases += rnd(ck, 60 * k, "b", letters="ab", atomic=3, ahead=4, behind=8, anchor=3, wordb=2, backref=2)
    cases += rnd(ck, 30 * k, "c", "\n", 2, letters="ab", atomic=3, ahead=5, behind=5, anchor=4)
    cases += [Case(p, "scale", a) for p, a in pick(ck, shapes.scale("look"), 50 * k, "sc")]
    ck.rule = "systematic context x look-around/atomic x content, repetitions of them, plus random nestings; spans and captures against the reference engine (look-behind content read right to left or left to right: both answers accepted where they differ)"
    run_core(ck, cases, exhaustive=400, samples=100, randoms=30)


def p08(ck):
    k = 1 if ck.quick else 8
    fixed = [r"(a)\1", r"(a|b)\1", r"(a*)\1", r"(a+)\1", r"(a+)b\1", r"(a+?)\1", r"(a|b)+\1", r"(a)?\1", r"(a)?b\1", r"(a)|b\1", r"(?:(a)|b)\1", r"(a)(b)\2\1", r"(a)(b)\g{1}\g{2}", r"(a)(b)\g{-1}\g{-2}", r"(?<n>a|b)\g{n}", r"(?<n>a*)b\g{n}",
             r"(?:(a)|(b))\1", r"(?:(a)|(b))\2", r"(?:(a|b)\1)+", r"((a|b)\2)+", r"(ab?)\1", r"(.)\1", r"(.+)\1", r"(.*)\1$", r"^(.+)\1+$", r"(\w)\1{2}", r"(a|ab)(c|bcd)\1?", r"(?=(a+))b*\1", r"(a)(?=\1)", r"(a)(?!\1).", r"(a)b(?<=\1b)", r"(a|b)(?<=\1)", r"(?>(a+))\1?b",
             r"(a*)(\1b)", r"((a)b)\1\2", r"(a)\1*", r"(a)\1+b", r"(a|b)\1?", r"(ab)\1{0,2}", r"()\1a", r"(a?)\1b", r"(a?)\1*b", r"((?:a|b)+)c\1", r"(a)(?:\1|b)+", r"(b)(a)\g{-2}", r"(?<x>a)(?<y>b)\g{y}\g{x}", r"(a)\g{1}1?", r"(?:(a)b|(b)a)\1?\2?", r"(.)(.)\2\1", r"(.)(.)?\2\1"]
    # a reference inside of its own group: the value of the previous iteration
    fixed += [r"(a|b\1)+", r"(a|b\1)+b", r"(?:(a|b\1)c)+", r"(a\1?b?)+", r"(a\1?b?)+?a", r"(a\1?b?)++", r"(a|\1b)+", r"(a|\1b){2}", r"(?:(a|\1b)){1,3}", r"(\1a|b)+", r"(\1)", r"(a\1)", r"(a|b\1\1)+", r"(?:(?<n>a|b\g{n})c?)+", r"(a|b\g{-1})+", r"(a|b\g{1})+(b)", r"((a)|b\1)+", r"(a|b(?=\1))+", r"(a|b(?!\1))+a", r"(?:(a|b(?<=\1b)))+",
              r"(?>(a|b\1)+)", r"(?=((a|b\2)+))", r"(?<=(a|b\1))b", r"(a|(b\1)\2?)+", r"(?:(a)|(b\1|\2))+", r"(a?b?\1)*", r"(\1?a|b)+b", r"(?:(a|b)\1?(b\2?)?)+"]
    cases = [Case(p, "fixed", "abc" if "c" in p else "ab") for p in fixed]
    cases += [Case(p, "fixed ci", "aAbB", 1) for p in fixed if "c" not in p]
    cases += [Case("([ab])" + p, "context", "aAb" if f else "abc", f) for f in (0, 1) for p in pick(ck, shapes.contexts((r"\1", r"\1?b", r"(?:b|\1)", r"(b)?\1"), ck.seed), 70 * k, "cx%d" % f) if r"(a)\1" not in p]
    seen = set()
    b = dict(cap=6, named=3, backref=12, group=3)
    cases += rnd(ck, 190 * k, "a", seen=seen, **b)
    cases += rnd(ck, 80 * k, "b", "", 1, letters="aAb", seen=seen, **b)
    cases += rnd(ck, 80 * k, "c", seen=seen, ahead=3, behind=3, atomic=2, **b)
    cases += rnd(ck, 40 * k, "d", letters="abc", seen=seen, alt=50, **b)
    cases += [Case(p, "scale", a, 0) for p, a in pick(ck, shapes.scale("refs"), 50 * k, "sc")] + [Case(p, "scale", a + "A", 1) for p, a in pick(ck, shapes.scale("refs"), 15 * k, "sci")]
    ck.rule = "fixed and random patterns with numbered, relative and named references; spans and captures against the reference engine"
    run_core(ck, [c for c in cases if "\\" in c.pattern or c.tag != "random"], exhaustive=400, samples=140, randoms=40)
