"""Systematic products of pattern parts: every construct in the positions where the library decides something about it at
compile time (what follows a repetition, what a search starts with, how two character sets overlap)."""
import re

QUANTS = ["*", "+", "?", "{2}", "{1}", "{0}", "{1,}", "{2,}", "{0,}", "{0,1}", "{1,2}", "{2,3}", "{0,2}", "{1,3}"]


def quant_forms():
    out = []
    for q in QUANTS:
        out.append(q)
        if not (q[0] == "{" and "," not in q):
            out += [q + "?", q + "+"]
    return out


# constructs which can be empty (or consume nothing at all), so what is behind them matters for what is before them
EMPTYABLE = ["b?", "b??", "b?+", "b*", "b*?", "b*+", "b{0,2}", "b{0,2}?", "b{0,2}+", "b{0}", "b{0,}", "b{0,}?", "b{0,}+", "(?:b|)", "(?:|b)", "(b)?", "(b)*?", "(?<n>b)*+",
             "(?<m>b?)", "(?>b?)", "(?>b|)", "(?>b*)", "(?=[ab])", "(?!b)", "(?!c)", "(?<=a)", "(?<=[ab])", "(?<!b)", r"\b", r"\B", "^", "$", r"\A", r"\Z", r"\z", "(?:b?c?)", "(?:b*)*", "(?:b+)?",
             "(?:b*c)?", "(?:bc)*", "(?:b|c)*", "(?:b?|c)", "[^a]?", "[bc]*", r"\d*", r"\s?+", ".?", ".*?", "()", "(?:)", "(?:^|b)", "(?:$|b)", "(?i)", "(?s)", r"\p{Lu}?", "(?:(?:b)?)?", "(?:b?){2}", "(?:b{0,1}|)+", "(?:b??)+"]


def followers(tails=("", "a", "b", "ab"), heads=("a*", "a+", "[ab]*", "(?:ab)*", "a{1,3}", "(a)*", "[^b]+", "(?:a|b)+")):
    """repetition + possibly empty construct + something"""
    out = []
    i = 0
    for f in EMPTYABLE:
        for t in tails:
            out.append(heads[0] + f + t)
            out.append(heads[1 + i % (len(heads) - 1)] + f + t)
            i += 1
    return out


def look_followers(tails=("", "a", "b", ".b", "a*")):
    out = []
    i = 0
    heads = ("a*", "[ab]+", "(?:ab?)*", "(a)*", "a{0,3}", "(?:a|b)*")
    for o in ("(?=", "(?!", "(?<=", "(?<!", "(?>"):
        for b in ("a", "b", "ab", "ba", "[ab]", "a*", "b*", "b?", "a$", ".b", "a|", "", "^", "(?!a)", "(b)"):
            for t in tails:
                out.append(heads[0] + o + b + ")" + t)
                out.append(heads[1 + i % (len(heads) - 1)] + o + b + ")" + t)
                i += 1
    return out


def anchored(turn=None):
    """patterns whose search may or may not be tried at the first position only; turn: one continuation for each, rotating"""
    W = ["^", r"\A", "(?:^a)", "(^)", "(^a)", "(?<n>^a)", "(?:^|b)", "(?:^|^a)", "(?:b|^)", r"(?:\A|^)a", r"\b^", r"^\b", r"\B^", "(?:^a|^b)", "(?:(?:^)a)", "(?:a^)", "(?>^a)", "(?=^)", "(?:^a*)", "$", "(?:a*^)", "(?:^b?|^)", r"(?:\b|^)"]
    out, n = [], 0
    for w in W:
        for q in [""] + quant_forms():
            if w in (r"\b^", r"^\b", r"\B^") and q:
                continue
            tails = ("b", "ab", "", "^b", "b$")
            n += 1
            for t in tails if turn is None else (tails[(turn + n * 3) % 5],):
                out.append(w + q + t)
    return out


CHARSETS = ["b", "c", "z", "[bd]", "[b-d]", "[^b]", "[^bd]", "[^b-d]", "[^b-y]", "[a-z]", "[c-x]", r"\w", r"\W", r"\d", r"\D", r"\s", r"\S", ".", "[[:lower:]]", "[[:^lower:]]", "[^[:lower:]]", r"[^\w]", r"[\D]", r"[^\D]", r"[b\d]", r"[^b\d]", "[[:^digit:]b]", "[^[:^digit:]]", r"\p{Ll}", r"[^\p{Ll}]", r"\x62", r"[^\x00-a]", r"[c-\x{10FFFF}]", "[0-9]", "[1-b]", "(?:b|c)", "(?:b|[^b])", "bc", "[a-bd-z]"]


def overlaps(quants=("*", "+", "{2,}", "{0,3}")):
    """repetition of a set followed by another set"""
    out = []
    i = 0
    for x in CHARSETS:
        for y in CHARSETS:
            a = "(?:bc)" if x == "bc" else x
            out.append(a + quants[i % len(quants)] + y)
            i += 1
    return out


# every kind of element: what is known before it (start of the subject, line mode, case, captures, whether something was consumed) has to be known behind it
ELEMENTS = ["", "a", "ab", "[ab]", "[^b]", ".", "(?:a|b)", "(?:b|a)", "(?:ab|a)", "(?:a|)", "(?:|a)", "(?:a|b|)", "(?:)", "()", "^", r"\A", "$", r"\Z", r"\z", r"\b", r"\B", "a?", "a??", "a?+", "a*", "a*?", "a*+", "[ab]+", "[ab]+?", "[ab]++", "(?:a|b)*", "(?:ab?)*?", "(?:ab?)*+",
            "a{2}", "a{1,2}", "a{1,2}?", "a{1,2}+", "(?:a|ab){0,2}", "(a)", "(?<n>a)", "(a)\\1", "(?<n>a)\\g{n}", "(a)?", "(?=a)", "(?=.)", "(?!b)", "(?!a)", "(?<=a)", "(?<=^)", "(?<!b)", "(?<!a)", "(?>a)", "(?>a|ab)", "(?>a*)", "(?i)", "(?c)", "(?m)", "(?s)", r"\w", r"\n?", "(?:^a|b)"]


def contexts(probes, turn=0):
    """something, an element, and then a probe which depends on what was before"""
    pre = ("", "a?", "[ab]*?", ".", "(?:a|b)?", "a")
    ways = ("%s%s%s", "%s(?:%s%s)", "%s(?:%s%s)+", "%s(%s%s)?", "%s(?:%s%s|b)", "%s(?=%s%s)", "%s(?>%s%s)", "%s(?:%s%s)*?b", "%s(?:%s%s){2}")
    out, n = [], turn
    for i, x in enumerate(ELEMENTS):
        for j, y in enumerate(probes):
            n += 1
            p = pre[(turn + i + j * 5) % len(pre)] if n % 3 else ""
            w = ways[(n * 2 + i) % len(ways)] if n % 2 else ways[0]
            if y.startswith("\0") or (x.startswith("(?") and len(x) == 4) and w != ways[0]:
                w = ways[0]
            out.append(w % (p, x, y) + ("", ".?", "b?", ".*")[(n + i) % 4])
    return out


# the same construct more than once: equal types meet where the library compares, shares or reuses something by type
TWINS = ["a", "ab", "[ab]", "[^b]", ".", r"\w", "a?", "a??", "a?+", "a*", "a*?", "a*+", ".*", ".*?", ".+", ".+?", "[ab]+", "[ab]*?", "[^c]*", "(?:a|b)", "(?:a|ab)", "(?:ab|a)", "(?:a|)", "(?:|a)", "(?:a|b)*", "(?:a|ab)+?", "(?:ab)*", "(?:ab)?", "a{2}", "a{1,2}",
         "a{1,2}?", "[ab]{0,2}", "[ab]{1,}?", "(a)", "(a*)", "(a|b)", "(a)?", "(?:(a)|b)*", "(?=a)", "(?=.*b)", "(?!b)", "(?<=a)", "(?<!b)", "(?>a*)", "(?>a|ab)", r"\b", "^", "$", "(?:^|b)", "(?:$|b)", "(?:a*b?)*"]
TWIN_WAYS = ["{x}{x}", "{x}{x}b", "{x}|{x}", "{x}b|{x}c", "{x}c|{x}b", "{x}b|{x}c|{x}a", "b{x}|c{x}", "(?:{x}b|{x}c)a?", "(?:{x}b|{x})c", "(?:{x}|{x}b)c", "(?:{x}|b{x})*", "(?:{x}b|{x}c)+", "(?:{x}c|{x}b)*?b", "{x}(?:{x})*", "(?:{x})*{x}", "(?:{x})*?{x}b",
             "(?={x}){x}", "(?!{x}b){x}", "{x}(?<={x})b?", "(?:{x})?{x}c", "(?:{x}c)?{x}b", "(?>{x}){x}", "{x}c{x}", "(?:{x}){2}{x}", "(?:{x}){1,2}(?:{x}){1,2}b", "({x})({x})", "({x}b)|({x}c)", "(?:{x}(b)|{x}(c))", "({x})|({x})b", "{x}(?:b|{x}|c)", "(?:{x})++{x}", "{x}{x}|{x}c", "(?=({x})b)({x})|{x}"]


def twins():
    return [w.replace("{x}", x) for x in TWINS for w in TWIN_WAYS]


def scale(kind="all"):
    """the same constructs with large parameters: counts, widths, numbers of alternatives and groups, depths, lengths.
    kind: all, captures, refs, look, counts, repeats, tame"""
    L = "abcdefghijklmnopqrstuvwxyz"
    out = []
    add = lambda p, al="ab": out.append((p, al))
    # counts
    for q in ("{5}", "{7,12}", "{9,}", "{0,9}", "{8,8}", "{16}", "{17,33}", "{10}", "{12}", "{6,31}", "{64}", "{99,101}", "{255}", "{256}", "{250,260}", "{257,}"):
        for k in ("", "?", "+"):
            if k and "," not in q:
                continue
            for x, t in (("a", ""), ("a", "b"), ("a", "a"), ("[ab]", "b"), ("(?:ab)", "a?"), ("(?:ab)", "c?"), (".", "b"), ("(a|b)", ""), ("(?:a|ab)", "b"), ("(ab?)", "a"), ("(?:a(b)?)", ""), ("[^b]", "a*"), (r"\w", r"\b"), ("(?:aab?)", "$")):
                if ("99" in q or "64" in q or "25" in q) and x not in ("a", "[ab]", "."):
                    continue
                add(x + q + k + t, "abc" if "c" in t else "ab ")
    add("(?:a{3}b{2,}){4}", "ab"); add("(?:a{2,5}b){3,6}?a", "ab"); add("(?:(?:a{2}b?){3}){2}", "ab"); add("(a{1,10})(a{1,10})(a{1,10})", "ab"); add("(a{1,10}?)(a{1,10}?)(b{0,10})", "ab")
    add("a{10}{2}" if 0 else "(?:a{10}){2}", "ab"); add("(?:a{0,11}b){11}", "ab"); add("a{10}b{11}|a{11}b{10}", "ab"); add("[ab]{10,20}a{10}", "ab"); add(".{10,}a.{10}", "ab"); add(".{12}", "ab"); add("(?:a|b){20}", "ab"); add("x{100}", "xy"); add("(?:xy){20,}?$", "xy")
    # many alternatives
    words = ["alpha", "beta", "gamma", "delta", "alp", "betamax", "gam", "epsilon", "eps", "a", "omega", "zeta", "eta", "theta", "iota", "kappa", "al", "lambda"]
    add("|".join(words), "aletbgmp"); add("^(?:" + "|".join(words) + ")$", "aletbgmp"); add("(?:" + "|".join(words) + ")+", "aletbgmp"); add("(" + ")|(".join(words) + ")", "aletbgmp"); add("(?:" + "|".join(words) + r")\b", "aletb ")
    add("|".join(L[:20]), L[:8]); add("(?:" + "|".join(L[:17]) + ")*r", "abqr"); add("(" + ")|(".join(L[:16]) + ")", "abmnop"); add("(?:" + "|".join("a" * i for i in range(1, 14)) + ")b", "ab"); add("(?:" + "|".join("a" * i for i in range(13, 0, -1)) + ")b?", "ab")
    add("(?:" + "|".join("a" * i + "b" for i in range(13)) + ")+", "ab"); add("(?:" + "|".join("(%s)" % c for c in L[:12]) + ")+", "abkl"); add("|".join("%s{%d}" % (c, i + 1) for i, c in enumerate(L[:12])), "abkl"); add("(?:" + "|".join("[%s%s]" % (L[i], L[i + 1]) for i in range(14)) + "|)z", "abmnoz")
    add("(?:" + "|".join("%s+" % c for c in L[:12]) + ")+?l", "abkl"); add("(?:" + "|".join("%s*" % c for c in L[:11]) + ")a", "abk"); add("(?>" + "|".join(["a" * i for i in range(11, 0, -1)]) + ")a", "ab")
    # many groups
    for n in (9, 10, 11, 12, 16, 20):
        G = L[:n]
        two = G[0] + G[-2:]
        add("".join("(%s)" % c for c in G), two); add("".join("(%s)?" % c for c in G), two); add("".join("(%s*)" % c for c in G) + "$", two); add("(" * n + "a" + ")" * n, "ab"); add("(" * n + "a|b" + ")" * n + "+", "ab")
        add("(?:" + "|".join("(%s)" % c for c in G) + ")+", two); add("".join("(a|b)" for c in G), "ab"); add("".join("(a?)" for c in G), "ab"); add("".join("(a??)" for c in G[:10]) + "b", "ab"); add("".join("(?<g%d>%s?)" % (i, c) for i, c in enumerate(G)), two)
        add("".join("(%s" % c for c in G) + ")?" * n, two); add("".join("(%s" % c for c in G[:8]) + "".join(")*" for c in G[:8]), G[:8])
        add("(?:" + "".join("(%s)" % c for c in G) + "|" + G[:n - 1] + ")", two); add("(.)" * n, "ab"); add("(.*?)" * 6 + "(b)" + "$", "ab"); add("(.+)" * n, "ab"); add("(?:(a)|(b)|(c)){%d}" % n, "abc")
        add("".join("([%s-%s])" % (c, c) for c in G) + "?", two)
        # references
        add("".join("(%s)" % c for c in G) + r"\%d" % n, two); add("([ab])" * n + r"\%d" % n, "ab"); add("([ab])" * n + r"\%d" % (n - 1), "ab"); add("([ab])" * n + r"\g{%d}" % n, "ab"); add("([ab])" * n + r"\g{-%d}" % n, "ab"); add("([ab])" * n + r"\g{-%d}" % (n - 1), "ab"); add("([ab])" * n + r"\g{1}\g{%d}" % n, "ab")
        add("([ab]?)" * n + "c" + r"\%d\%d\1" % (n, n - 1), "abc"); add("".join("(?<g%d>[ab])" % i for i in range(n)) + r"\g{g%d}" % (n - 1), "ab"); add("".join("(?<g%d>[ab])" % i for i in range(n)) + r"\g{g1}\g{g0}", "ab"); add("(" * n + "[ab]" + ")" * n + r"\%d" % n, "ab"); add("(?:([ab])" + "([ab])" * (n - 1) + r"|b)\%d?" % n, "ab")
    add("(?<a_rather_long_name_of_a_group_with_1234567890_digits>a|b)\\g{a_rather_long_name_of_a_group_with_1234567890_digits}", "ab"); add("(?<a_rather_long_name_of_a_group_1>a|b)(?<a_rather_long_name_of_a_group_2>a|b)\\g{a_rather_long_name_of_a_group_2}", "ab"); add("(?<a_rather_long_name_of_a_group_1>a|b)(?<a_rather_long_name_of_a_group_2>a|b)\\g{a_rather_long_name_of_a_group_1}", "ab")
    add(r"(a+)b\1", "ab"); add(r"(.+)\1\1", "ab"); add(r"^(.*)\1$", "ab"); add(r"(.{5,})b\1", "ab"); add(r"([ab]{12})\1", "ab"); add(r"((?:ab|a){3,8})c\1+", "abc"); add(r"([ab]+)c(?:\1|c)+$", "abc"); add(r"(?<n>[ab]{4,9}) \g{n}", "ab ")
    # long literals
    for n in (15, 16, 17, 31, 32, 33, 40, 64, 65):
        s = (L * 3)[:n]
        e = s[-1] + s[0]
        add(s, e); add(s + "+", e); add("^" + s + "$", e); add(s + "|" + s[:-1] + "1", e + "1"); add("(" + s + ")", e); add("(?:" + s + "){1,2}", e); add("a*" + "b" * n, "ab"); add("a" * n, "ab"); add("a" * n + "|" + "a" * (n - 1) + "b", "ab"); add("(?=" + s[:8] + ")" + s[:4] + ".*", e); add("a" * n + "?b", "ab"); add(".*" + "ab" * (n // 4), "ab"); add("a*?" + "ab" * (n // 4), "ab")
    # sets with many members
    members = ["a", "c", "e", "g", "i", "k", "m", "o", "q", "s", "u", "w", "y", "1", "3", "5"]
    add("[" + "".join(members) + "]+", "abyz15"); add("[^" + "".join(members) + "]+", "abyz15"); add("[" + "".join("%s-%s" % (x, x) for x in members) + "]*b", "abyz15"); add("[" + "".join(reversed(members)) + r"\x20-\x2f]{4}", "ab5!"); add("[a-cA-Cx-zX-Z0-24-68-9_.!]+", "abdxz379_.!w"); add("[^a-cA-Cx-zX-Z0-24-68-9_.!]+", "abdxz379_.!w"); add(r"[\d\s_a-f-]+g" if 0 else r"[\d\s_a-f]+g", "afg1 _"); add("[" + "".join(members) + "]+[bdf]", "abdf1"); add("[" + "".join(members) + "]+b[ac]", "abc1"); add("[abcdefghijklmnop]{2,}[nopqrstuvwxyz]", "anz"); add("[" + L[:13] + "]*[" + L[13:] + "]", "amnz"); add("[" + L[:14] + "]*[" + L[13:] + "]", "amnz"); add("[" + L[:13] + "]+" + "[" + L[12:20] + "]", "almt")
    # depth
    for n in (8, 12, 16, 24):
        add("(?:" * n + "a" + ")" * n, "ab"); add("(?:" * n + "a" + "b?)" * n, "ab"); add("(?:a" * n + "b" + ")?" * n, "ab"); add("(?:" * n + "a" + "|b)" * n, "ab"); add("(?:a|" * n + "b" + ")" * n, "ab"); add("(?:" * min(n, 12) + "a" + ")+" * min(n, 2) + ")" * (min(n, 12) - 2), "ab"); add("(a" * n + ")" * n, "ab"); add("(a" * n + ")?" * n + "b?", "ab")
        add("(?=" * n + "a" + ")" * n + "a", "ab"); add("(?!" * n + "a" + ")" * n + "[ab]", "ab"); add("(?>" * n + "a*" + ")" * n + "b", "ab"); add("a?" * n, "ab"); add("a?" * n + "a" * n, "ab"); add("a??" * n + "b", "ab"); add("".join("a%s" % q for q in ("*", "?", "+", "*?", "{2}", "??", "+?", "{1,2}")) + "b", "ab"); add("[ab]?" * n + "b", "ab"); add("(?:ab?)" * n, "ab"); add("(?:a|b)" * n + "$", "ab"); add(r"\w\w?" * n, "ab "); add("(?:^|b)" * n + "a", "ab")
    # look-around over long stretches
    for n in (8, 12, 20):
        add("(?<=" + "a" * n + ")b", "ab"); add("(?<!" + "a" * n + ")b", "ab"); add("(?<=a{%d})b" % n, "ab"); add("(?<=a{%d,})b" % n, "ab"); add("(?<![ab]{%d}).$" % n, "ab"); add("(?<=(a)%s)b" % ("[ab]" * n), "ab"); add("(?=" + "[ab]" * n + ")a", "ab"); add("(?!" + "a" * n + ")[ab]+$", "ab"); add("(?=.{%d,}b)a" % n, "ab"); add("(?=(.{%d}))a" % n, "ab"); add("(?<=^.{%d})b" % n, "ab"); add("(?<=^a*)b{%d}" % n, "ab"); add("(?>a{%d,})b" % n, "ab"); add("(?>[ab]{2,%d})b" % n, "ab"); add("(?<=" + "(?:a|b)" * n + ")a", "ab"); add(r"\b" + r"\w" * n + r"\b", "ab "); add(r"(?<=\b\w{%d})b" % n, "ab ")
        add(("(?=a)a" * n), "ab"); add("(?=a)" * n + "a", "ab"); add(r"\b" * n + "a", "ab "); add("^" * n + "a", "ab"); add("(?:a$|a)" * n, "ab")
    # long subjects
    for p in ("a*", "a*b", ".*", ".*b", ".*?b", "[ab]*a", "(?:ab)*", "(a|b)*", "(?:a|b)*?b$", "(?:ab|a)*", "(ab?)+", "^(?:a+b)*$", "(?:a*b)*", r"\w+", r"\w+\s", r"(?:\w+ )+", "[^b]*b[^b]*$", "a++", "(?:ab)*+a?", "(?>a*)b", "b.*b", "(?=.*b).*a", r"(?:[ab]+ ?)*$", "(a*)(b*)(a*)", "(.*)(b)(.*)", "(?:(a+)|(b+))*", "(?<=a)b*", "(?:a|b|ab)+$", "a+b+a+b+", "(?:aa)+", "(?:aaa)*$", "[ab]{2,}$", "(a+|b)*a$"):
        add(p, "ab ")
    out = list(dict.fromkeys(out))
    if kind == "captures":
        out = [x for x in out if re.search(r"\((?!\?[^<])", x[0])]
    elif kind == "refs":
        out = [x for x in out if re.search(r"\\(\d|g)", x[0])]
    elif kind == "look":
        out = [x for x in out if re.search(r"\(\?([=!>]|<[=!])", x[0])]
    elif kind == "counts":
        out = [x for x in out if "{" in x[0]]
    elif kind == "tame": # no pattern whose failures take long on subjects of moderate length
        out = [x for x in out if not re.search(r"\(\.[+*]|1,10|a\?a\?a\?|\?\?|\(a\?\)|\{0,11|\?b\?\)\)\)|\(a\|b\|ab", x[0])]
    elif kind == "repeats":
        out = [x for x in out if re.search(r"[*+?}]", x[0].replace("(?", "("))]
    return out


def huge():
    """counts beyond any subject, around the widths of the integer types"""
    out = []
    add = lambda p, al="ab": out.append((p, al))
    for q in ("{65535}", "{65536}", "{65537,}", "{4294967295}", "{4294967296}", "{4294967297}", "{4294967296,}", "{4294967297,4294967299}", "{18446744073709551615}"):
        for x in ("a", "[ab]", "(a)", "(?:ab)", "(?:a|b)"):
            add(x + q, "ab"); add(x + q + "|b", "ab"); add("(?:" + x + q + ")?b", "ab"); add(x + "?" + x + q, "ab"); add("(?=" + x + q + "|b)" + x, "ab") if "18" not in q else None
            if "," in q:
                add(x + q + "?|b", "ab"); add(x + q + "+|b", "ab")
    for q in ("{0,65536}", "{1,65537}", "{0,256}", "{1,257}", "{0,4294967295}", "{1,4294967296}", "{0,4294967297}", "{2,4294967298}", "{1,18446744073709551615}", "{0,9223372036854775808}"):
        for x in ("a", "[ab]", "(a)", "(?:ab)", "(?:a|b)"):
            for k in ("", "?", "+"):
                add(x + q + k + "b", "ab"); add(x + q + k, "ab")
            add(x + q + x + q, "ab"); add("(?<=^" + x + q + ")b", "ab")
    return out


def behind_anchors():
    """look-behind is evaluated from right to left, where what an anchor asks for is on the other side"""
    out = []
    for x in ["^", "$", r"\A", r"\z", r"\Z", r"\b", r"\B"]:
        out += ["(?<=" + x + ")a", "(?<=" + x + "a)b", "(?<!" + x + ")a", "(?<=a" + x + ").?", ".(?<=b*" + x + r"\n?)", "(?<!a" + x + r"\n?)b?", "(?<=(?=" + x + "a?)b).?", r"[ab\n](?<=" + x + r"\n?)",
                r"(?<=[ab]*" + x + r"[b\n]*)b?", "(?<=(?:" + x + "|b)a?).?", "(?<=(?<!a" + x + "))b?", r"(?<=a" + x + r"[\n]*(?:b|))[ab]?", r"(?<=(?<=a" + x + r")\n?).?", "(?<=(a|)" + x + r"[a\n]{0,2})"]
    return out


def catalog():
    """(pattern, alphabet, flags) which together go through every construct of the library at least once"""
    out = []
    for x in ["^", "$", r"\A", r"\z", r"\Z", r"\b", r"\B"]:
        for f in (0, 2):
            for p in (x, x + "a", "a" + x, "a" + x + r"\n", x + ".*", "(?:" + x + "|a)b"):
                out.append((p, "ab\n", f))
            for p in ("(?<=a" + x + ").?", "(?<=" + x + "a).?", ".(?<=b*" + x + r"\n?)", "(?<!a" + x + r"\n?)b?", "(?<=(?=" + x + "a?)b).?", r"[ab\n](?<=" + x + r"\n?)"):
                out.append((p, "ab\n", f))
    for q in quant_forms():
        out.append(("a" + q, "ab", 0))
        out.append(("(?:a|ab)" + q + "b", "ab", 1))
        out.append(("(?:a?)" + q + "(b)?", "ab", 0))
        out.append(("[ab]" + q + "a" + q, "abA", 1))
    for b in ("a", "a+", "ab?", "a|b", "", "(a)", "a$", r"\ba"):
        for o in ("(?=", "(?!", "(?<=", "(?<!", "(?>"):
            out.append(("a*" + o + b + ")b?", "ab\n", 0))
            out.append((o + b + ").", "abA\n", 3))
    for p in (r"(a)\1", r"(a|b)+\1", r"(?<n>a*)b\g{n}", r"(a)(b)\g{-2}", r"(a)?b\1", r"(a)\g{1}", r"(?<=(a))\1", r"(aB?)\1"):
        out += [(p, "abAB", 0), (p, "abAB", 1)]
    for p in (r"\d", r"\D", r"\s", r"\S", r"\w", r"\W", r"\h", r"\H", r"\v", r"\V", r"\N", ".", r"\R" if 0 else r"\t", r"\n", r"\r", r"\f", r"\e", r"\a", r"\x41", r"\x{42}", r"\u0061", r"\u{62}", r"\c" if 0 else r"\.", r"\-", r"\[", r"\{", r"\\"):
        a = "aAbB1 _.-[{\\\t\n\r\f\x1b\x07\v"
        out += [(p + "+", a, 0), (p, a, 2)]
        if p != ".":
            out += [("[" + p + "b]+", a, 0), ("[^" + p + "1]", a, 1)] if p != r"\N" else []
    for n in ("alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit"):
        a = "aAgG1 _.\t\n\x01~"
        out += [("[[:%s:]]+" % n, a, 0), ("[[:^%s:]]" % n, a, 0), ("[^[:%s:]_]" % n, a, 1)]
    for p in ("[a-c]+", "[^a-c]", "[a-cx-z]", "[^a-cx]+", "[A-z]", r"[\x41-\x43]+", r"[a\-c]", r"[\w-]" if 0 else "[ab]", "[^^]", "[$^]" if 0 else "[$]", r"[\]]", "[|()]+"):
        out += [(p, "abcxyzABC-^$]|(", 0), (p, "abcxyzABC-^$]|(", 1)]
    for p in ("(?i)aB", "a(?i)b", "(?i)a(?c)b", "(?m)^a$", "(?m)a(?s)$", "(?im)^B", "(?ims)^b$", "(?s).", "(?m)."):
        out += [(p, "abAB\n", 0), (p, "abAB\n", 3)]
    for p in ("abc", "ab|cd", "a|b|c|", "(a)(b)(c)", "(?:a)(?:b)", "(?<x>a)(?<y>b)", "((a)b)*", "(a|(b))+c?", "^(a+)+$", ".*?b.", "a++b", "(?:ab)*+a", "(?:a|ab)(?:c|bcd)", "(ab|a)(bc|c)", "()", "(|a)b", "x*", "[a]{2}b", "a{2}{3}" if 0 else "(?:a{2}){3}"):
        out += [(p, "abcd", 0), (p, "abcdAB", 1)]
    return list(dict.fromkeys(out))
