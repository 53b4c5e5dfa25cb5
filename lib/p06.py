"""P06: every escape, class, range and set against its definition, over all code points."""
import random
from harness import *
from core import mods

HEAD = '''#include <ctre.hpp>
#include "monclass.hpp"
#include <string_view>
template <ctll::fixed_string P, typename... M> bool f32(char32_t c) { return bool(ctre::match<P, M...>(std::u32string_view(&c, 1))); }
template <ctll::fixed_string P, typename... M> bool f16(char16_t c) { return bool(ctre::match<P, M...>(std::u16string_view(&c, 1))); }
template <ctll::fixed_string P, typename... M> bool f8(char c) { return bool(ctre::match<P, M...>(std::string_view(&c, 1))); }
template <ctll::fixed_string P, char32_t A, char32_t B, int R, typename... M> bool fc(char32_t c) { char32_t b[6]; size_t n = 0; if (A) b[n++] = A; for (int i = 0; i < R; ++i) b[n++] = c; if (B) b[n++] = B; return bool(ctre::match<P, M...>(std::u32string_view(b, n))); }
'''

# (pattern built around the element E, unit before, how often the character, unit after, negated)
CONTEXTS = [("(E)", "", 1, "", 0), ("(?:E)+", "", 1, "", 0), ("E{2}", "", 2, "", 0), ("E{1,3}", "", 3, "", 0), ("(?:E|E)", "", 1, "", 0), ("(?=E)(?s).", "", 1, "", 0), ("(?!E)(?s).", "", 1, "", 1),
            ("xEy", "x", 1, "y", 0), ("xE+?y", "x", 2, "y", 0), ("x(?<=xE).?y|x(?=Ey)\\x{0}?[^\\x{110000}]y", "x", 1, "y", 0), ("(?s).(?<=E)", "", 1, "", 0), ("(?s).(?<!E)", "", 1, "", 1), ("xE++y?", "x", 2, "", 0), ("(?>E)", "", 1, "", 0), ("E*+", "", 2, "", 0), ("(?:E)(?:E)", "", 2, "", 0)]
CONTEXTS = [c for c in CONTEXTS if "110000" not in c[0]]


class ClassCase:
    def __init__(self, element, flags, ctx):
        self.element, self.flags, self.ctx = element, flags, ctx

    def __str__(self):
        return self.element
    pattern = property(lambda s: s.element)


def render(cases):
    o = [HEAD, "const ClassCase class_cases[] = {\n"]
    for c in cases:
        lit, m = cstr(c.element), mods(c.flags)
        pre = "" if all(ord(x) < 128 for x in c.element) else "U"
        t = '%s"%s"%s' % (pre, lit, m)
        cx = []
        for form, a, r, b, neg in c.ctx:
            p = form.replace("E", c.element)
            cx.append('{"%s", "%s", %s, &fc<%s"%s", %s, %s, %d%s>}' % (cstr(form), cstr(p), "true" if neg else "false", pre, cstr(p), "U'%s'" % a if a else "0", "U'%s'" % b if b else "0", r, m))
        o.append('{"%s", %d, &f32<%s>, &f16<%s>, &f8<%s>, %d, {%s}},\n' % (lit, c.flags, t, t, t, len(cx), ", ".join(cx)))
    o.append("};\nconst size_t class_case_count = sizeof(class_cases) / sizeof(class_cases[0]);\n")
    return "".join(o)


ESC = [r"\n", r"\t", r"\r", r"\0", r"\a", r"\e", r"\f"] + ["\\" + c for c in ".[]{}()\\*+?|^$-/\"<>"]
CLS = [r"\d", r"\D", r"\w", r"\W", r"\s", r"\S", r"\v", r"\V", r"\h", r"\H", r"\N"]
POSIX = "alnum alpha ascii blank cntrl digit graph lower print punct space upper word xdigit".split()
RAW = "/abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,:!=_\"-]<>;&%#@~'` "
RAW_SET = "/_+*().${}?!=<>|\"abzAZ09,:;&%#@~'` "
WIDE = "\u00a0\u00e9\u00df\u0130\u017f\u0416\u05d0\u1680\u180e\u2000\u2028\u202f\u212a\u20ac\u3000\u4e2d\ufeff\uffff\U00010000\U0001f600\U000e0041\U0010ffff"


def p06(ck):
    r = random.Random("P06-%d" % ck.seed)
    k = 1 if ck.quick else 6

    def hexed(cp):
        f = [r"\x{%x}" % cp, r"\x{%06X}" % cp, r"\u{%X}" % cp]
        if cp < 256:
            f.append(r"\x%02x" % cp)
        if cp < 65536:
            f.append(r"\u%04x" % cp)
        return r.choice(f)

    def anycp():
        return r.choice([r.randrange(128), r.randrange(0x80, 0x300), r.randrange(0x110000), ord(r.choice(WIDE)), r.choice([0, 9, 10, 13, 31, 32, 47, 48, 57, 58, 64, 65, 90, 91, 95, 96, 97, 122, 123, 126, 127, 128, 255, 256, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF])])

    def single():
        x = r.randrange(4)
        if x == 0:
            return r.choice(RAW_SET), None
        if x == 1:
            return r.choice(ESC), None
        if x == 2:
            return r.choice(WIDE), None
        return hexed(anycp()), None

    def rng():
        a, b = sorted((anycp(), anycp()))
        if r.random() < .6:
            b = min(a + r.randrange(0, 40), 0x10FFFF)
        def lit(c, end):
            ch = chr(c)
            if r.random() < .5 and ch.isascii() and ch.isalnum() or c > 160 and not 0xD800 <= c < 0xE000 and r.random() < .5:
                return ch
            if ch in ".[]{}()\\*+?|^$-/" and r.random() < .7:
                return "\\" + ch
            if c < 128 and ch in "/_+*().${}?!=<>|\",:;&%#@~" and r.random() < .7:
                return ch
            return hexed(c)
        return lit(a, 0) + "-" + lit(b, 1)

    def item():
        x = r.randrange(10)
        if x < 3:
            return single()[0]
        if x < 6:
            return rng()
        if x < 8:
            return r.choice(CLS)
        return "[:%s%s:]" % (r.choice(["", "^"]), r.choice(POSIX))

    def aset():
        items = [item() for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6]))]
        body = ""
        for i in items:
            if i.startswith("-") or (body and i.startswith("-")):
                i = "\\" + i
            body += i
        neg = "^" if r.random() < .4 else ""
        return "[" + neg + body + "]"

    els = [(e, 0) for e in ESC + CLS + ["."]] + [(".", 2), (r"\N", 2)]
    els += [("[[:%s:]]" % n, 0) for n in POSIX] + [("[[:^%s:]]" % n, 0) for n in POSIX] + [("[^[:%s:]]" % n, 0) for n in r.sample(POSIX, 5)] + [("[" + c + "]", 0) for c in CLS] + [("[^" + c + "]", 0) for c in CLS]
    els += [("[^]", 0)]
    els += [(c, 0) for c in r.sample(RAW, 14 if ck.quick else len(RAW))] + [(c, 0) for c in r.sample(WIDE, 6)]
    els += [(hexed(anycp()), 0) for _ in range(12 * k)]
    els += [("[" + c + "]", 0) for c in r.sample(RAW_SET, 8)]
    els += [("[" + rng() + "]", 0) for _ in range(16 * k)] + [("[^" + rng() + "]", 0) for _ in range(8 * k)]
    els += [(aset(), 0) for _ in range(50 * k)]
    els += [(aset(), 1) for _ in range(25 * k)] + [("[" + rng() + "]", 1) for _ in range(12 * k)] + [(r.choice(RAW), 1) for _ in range(6 * k)] + [(c, 1) for c in r.sample(CLS, 3)] + [("[[:%s:]]" % n, 1) for n in ("lower", "upper", "alpha", "xdigit", "word")]
    els = list(dict.fromkeys(els))
    cases = []
    for e, f in els:
        ctx = r.sample(CONTEXTS, 4 if ck.quick else 6)
        if f & 2:
            ctx = [c for c in ctx if "(?s)" not in c[0]]
        if not (e.startswith("[") or len(e) == 1 or e.startswith("\\")):
            continue
        cases.append(ClassCase(e, f, ctx))
    objs = [ck.reflib(), ck.obj("main_class.cpp", "main_class.o", std="c++17")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if 0 < rec["accepted"] < 0x110000 else 0, {"element": rec["case"], "accepted": rec["accepted"], "evaluations": rec["evals"]} if r.random() < .05 else None, elements=1, contexts=rec["contexts"])
    ck.rule = "every escape, shorthand and POSIX class and the dot, plus random literals, hex escapes, ranges and sets (some case-insensitive); each is offered all 1114112 code points as UTF-32, 65536 units as UTF-16, 0..127 as char, and inside 4-6 contexts its first 1024, its boundaries and random code points; non-trivial: accepts some and rejects some"
    ck.wait(ck.batch(cases, render, args=[ck.seed], link=objs, per=10, timeout=600, handle=handle, flags=FAST, opt="-O1"))
