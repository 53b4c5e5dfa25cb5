"""P13: termination and the number of character inspections."""
import random
from harness import *
from core import Case
from p_core import rnd, ALL

HEAD = '''#include <ctre.hpp>
#include "monwork.hpp"
using namespace mon;
#define BE It{b, b, e}, It{e, b, e}
template <ctll::fixed_string P> Done w0(const char * b, const char * e) { return done(ctre::match<P>(BE)); }
template <ctll::fixed_string P> Done w1(const char * b, const char * e) { return done(ctre::starts_with<P>(BE)); }
template <ctll::fixed_string P> Done w2(const char * b, const char * e) { return done(ctre::search<P>(BE)); }
template <ctll::fixed_string P> Done w3(const char * b, const char * e) { return drain(ctre::search_all<P>(BE), 2 * (e - b) + 4); }
template <ctll::fixed_string P> Done w4(const char * b, const char * e) { return drain(ctre::split<P>(BE), 2 * (e - b) + 4); }
template <ctll::fixed_string P> Done w5(const char * b, const char * e) { return drain(ctre::tokenize<P>(BE), 2 * (e - b) + 4); }
'''


class WorkCase:
    def __init__(self, pattern, plan, alphabet, kind, nops):
        self.pattern, self.plan, self.alphabet, self.kind, self.nops = pattern, plan, alphabet, kind, nops

    def __str__(self):
        return self.pattern


def render(cases):
    o = [HEAD, "const WorkCase work_cases[] = {\n"]
    for c in cases:
        fns = ", ".join("&w%d<\"%s\">" % (i, cstr(c.pattern)) for i in range(c.nops))
        o.append('{"%s", "%s", "%s", %d, %d, {%s}},\n' % (cstr(c.pattern), cstr(c.plan), cstr(c.alphabet), c.kind, c.nops, fns))
    o.append("};\nconst size_t work_case_count = sizeof(work_cases) / sizeof(work_cases[0]);\n")
    return "".join(o)


POOL = [("[a-c]", "abc"), ("[0-9]", "0189"), (r"\d", "0589"), ("x", "x"), ("[xyz]", "xyz"), (r"\s", " "), ("[,;]", ",;"), ("[A-F]", "ACF"), ("[[:upper:]]", "AQZ"), ("_", "_"), ("[#%]", "#%"), (r"\t", "\t"), ("[[:alpha:]]", "azAZ"), (r"\w", "a0_Z"), ("[!@&~]", "!@&~"), (r"[\-+*]", "-+*"), ("[g-np-w]", "gnpw"), ("[[:xdigit:]]", "09afAF"), ("[[:digit:]]", "09")]
# negations of characters and ranges in ascending order
NEGATED = [("[^,]", "ab1 "), ("[^,;]", "ab1 "), (r'[^"\\]', "ab, "), ("[^b-d]", "axz0"), ("[^a-z]", "A1 ,"), ("[^0-9]", "ab,"), ("[^_]", "ab"), ("[^x]", "ab"), (r"[^\n]", "ab,"), ("[^A-Fa-f]", "gz,"), ("[^ ]", "ab,"), ("[^<>]", "ab=")]
SINGLES = [(",", ","), (";", ";"), ('"', '"'), ("b", "b"), ("x", "x"), ("_", "_"), (r"\n", "\n"), ("[b-d]", "bcd"), ("[<>]", "<>"), (r'["\\]', '"\\'), (" ", " "), ("[A-F]", "ACF"), ("[a-z]", "amz")]


def follow_forms(y, c, z, d):
    """ways to begin with y; z: another such element"""
    return [(y, c[:1]), ("(%s)" % y, c[:1]), ("(?<n>%s)" % y, c[:1]), ("%s{2}" % y, c[0] * 2), ("%s+" % y, c[:1]), ("(?:%s|%s)" % (y, z), d[:1]), ("%s%s" % (y, z), c[0] + d[0]), ("(?:%s%s?)" % (y, z), c[:1]), ("(?>%s)" % y, c[:1]), ("%s?%s" % (y, z), d[:1]), ("(?:%s|%s)+" % (z, y), c[0] + d[0]), ("(?:%s)*%s" % (z, y), c[:1]), ("%s+?$" % y, c[:1])]


def pairs(r, count, forms=True):
    """a repetition of one element and something disjoint behind it: systematic pairs, sampled"""
    P = POOL + NEGATED + SINGLES
    out = []
    for x, xc in POOL + NEGATED + [("[^a-c]", "xyz"), (r"[\w]", "ab1")]:
        ys = [(y, c) for y, c in P if not (members(x) & members(y)) and not (y in [n for n, _ in NEGATED] and x in [n for n, _ in NEGATED])]
        for i, (y, c) in enumerate(ys):
            z, d = ys[(i * 7 + 3) % len(ys)]
            fs = follow_forms(y, c, z, d) if forms else [(y, c[:1])]
            for j, (f, fc) in enumerate(fs):
                out.append((x, xc, f, fc, j))
    q = ["+", "*", "{2,}", "{1,}"]
    picked = r.sample(out, min(count, len(out)))
    return [(w % (x + q[i % 4]) + f, "+" + xc + "\x01=" + fc) for i, (x, xc, f, fc, j) in enumerate(picked) for w in (["%s", "%s", "(%s)", "(?<m>%s)", "(?>%s)"][i % 5],)]


def disjoint(a, b):
    """may the member b follow a repetition of a? decided on the definitions"""
    return not (MEMBERS[a] & MEMBERS[b])


def members(p):
    r = re.compile(p.replace("[[:upper:]]", "[A-Z]").replace("[[:alpha:]]", "[A-Za-z]").replace("[[:xdigit:]]", "[0-9A-Fa-f]").replace("[[:digit:]]", "[0-9]"), re.A)
    return {c for c in range(256) if r.fullmatch(chr(c))}


MEMBERS = {p: members(p) for p, _ in POOL}


def linear(r, count):
    out, seen = [], set()
    while len(out) < count:
        n = r.choice([1, 1, 2, 2, 3, 4])
        segs, prev = [], None
        pat, plan = "", []
        pending = []  # repeated classes whose continuation has not yet had a mandatory element
        ok = True
        for _ in range(n):
            cand = [x for x in POOL if all(disjoint(x[0], q) for q in pending)]
            if not cand:
                ok = False
                break
            p, chars = r.choice(cand)
            q = r.choice(["+", "+", "*", "{1,}", "{2,}", "*"])
            wrap = r.choice(["%s"] * 4 + ["(%s)"])
            pat += wrap % (p + q)
            plan.append("+" + chars if q != "*" else "*" + chars)
            pending = (pending if q == "*" else []) + [p]
            if r.random() < .35:
                cand = [x for x in POOL if len(MEMBERS[x[0]]) <= 3 and all(disjoint(x[0], q) for q in pending)]
                if cand:
                    p, chars = r.choice(cand)
                    pat += p
                    plan.append("=" + chars[0])
                    pending = []
        if not ok:
            continue
        cand = [x for x in POOL if len(MEMBERS[x[0]]) <= 3 and all(disjoint(x[0], q) for q in pending)] + ([(":", ":")] if all(58 not in MEMBERS[q] for q in pending) else [])
        if pending:
            if not cand:
                continue
            p, chars = r.choice(cand)
            pat += p
            plan.append("=" + chars[0])
        if pat in seen:
            continue
        seen.add(pat)
        out.append((pat, "\x01".join(plan)))
    return out


def p13(ck):
    r = random.Random("P13-%d" % ck.seed)
    k = 1 if ck.quick else 8
    cases = []
    for pat, plan in linear(r, 150 * k):
        cases.append(WorkCase(pat, plan, "ab", 0, 2))
    for pat, plan in pairs(r, 450 * k):
        cases.append(WorkCase(pat, plan, "ab", 0, 2))
    # loops of something that can be empty
    bodies = ["a*", "a?", "", "a|", "|a", "a*b*", "a?b?", "(a)?", "(a*)", "(a|b*)", "a{0,2}", "a*?", "a??", "^", "$", r"\b", r"\B", r"\A", r"\z", "(?=a)", "(?!a)", "(?<=a)", "(?<!b)", "(?=a)a?", "(?>a*)", "(?>)", "a*|b", "b|a*", "(?:a*)*", "(?:a?)+", "(?:|a)+", "()", "()|a", "^a?", "a?$", r"\ba*", "(?:(?=a)|b)", "a{0}", "(?:^|a)", "(a?)(b?)", "[ab]*", ".*", ".*?", "(?:a*)+?", "(?:a*)*?", r"(a?)\1"]
    loops = ["*", "+", "*?", "+?", "*+", "++", "{2}", "{2,}", "{2,}?", "{0,3}", "{1,2}?", "{2,}+", "?"]
    tails = ["", "b", "c", "$", "a"]
    forms = ["(?:%s)%s%s" % (b, l, t) for b in bodies for l in loops for t in tails] + ["(%s)%s%s" % (b, l, t) for b in bodies for l in loops for t in tails] + ["(?:(?:%s)%s)%s%s" % (b, l, l2, t) for b in bodies for l in loops[:6] for l2 in loops for t in tails[:2]] + [r"(?:(%s)\1)%s%s" % (b, l, t) for b in bodies[:12] for l in loops for t in tails[:3] if "\\1" not in b]
    for p in r.sample(forms, 230 * k):
        cases.append(WorkCase(p, "", "ab", 1, 6))
    for c in rnd(ck, 60 * k, "t", empty=10, alt=45, rep=60, depth=3, seqlen=2, anchor=3, wordb=2, ahead=2, behind=2):
        cases.append(WorkCase(c.pattern, "", "ab", 1, 6))
    objs = [ck.reflib(), ck.obj("main_work.cpp", "main_work.o", std="c++17")]
    worst = [0.0]

    def handle(rec):
        if "case" in rec:
            worst[0] = max(worst[0], rec["worst"])
            ck.add(rec["evals"], 1 if rec["matched"] and rec["failed"] else 0, {"pattern": rec["case"], "runs": rec["evals"], "inspections": rec["reads"], "longest_subject": rec["longest"], "worst_inspections_per_character": rec["worst"]} if r.random() < .05 else None,
                   inspections=rec["reads"], **{"linear_patterns" if rec["kind"] == 0 else "loop_patterns": 1})
    ck.rule = "linear work: random sequences of repeated classes, each followed by a mandatory character outside of it, on subjects up to 3000 characters (matching, truncated, wrong at the end or in the middle), inspections bounded by 1.5 per character plus a constant; termination: loops and nested loops of elements that can be empty, all operations, subjects up to 14 characters, sequences bounded; non-trivial: some subject matched and some did not"
    ck.wait(ck.batch(cases, render, args=[ck.seed], link=objs, per=24, timeout=600, handle=handle, flags=FAST))
    ck.cov["worst_inspections_per_character"] = worst[0]
