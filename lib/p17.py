"""P17: Unicode properties against a frozen copy of the Unicode Character Database."""
import gzip, random
from harness import *


class UcdCase:
    def __init__(self, pattern, st, neg, changed):
        self.pattern, self.set, self.neg, self.changed = pattern, st, neg, changed

    def __str__(self):
        return self.pattern


def render(cases):
    o = ['#include "monucd.hpp"\nextern const UcdCase ucd_cases[];\nextern const size_t ucd_case_count;\nconst UcdCase ucd_cases[] = {\n']
    for c in cases:
        o.append('{"%s", %d, %s, &accepts<"%s">, "%s"},\n' % (cstr(c.pattern), c.set, "true" if c.neg else "false", cstr(c.pattern), " ".join(map(str, c.changed))))
    o.append("};\nconst size_t ucd_case_count = sizeof(ucd_cases) / sizeof(ucd_cases[0]);\n")
    return "".join(o)


def p17(ck):
    r = random.Random("P17-%d" % ck.seed)
    data = json.loads(gzip.open(os.path.join(VERIF, "data", "ucd14.json.gz")).read())
    sets = ck.path("sets.txt")
    with open(sets, "w") as f:
        for l in [data["mask"]] + data["sets"]:
            f.write(" ".join(map(str, l)) + "\n")
    cases = []
    names = list(data["names"].items())
    for n, (s, ch) in names:
        cases.append(UcdCase("\\p{%s}" % n, s, False, ch))
    forms = [("\\P{%s}", True), ("[\\p{%s}]", False), ("[^\\p{%s}]", True), ("[\\P{%s}]", True), ("[^\\P{%s}]", False), ("(?:\\p{%s})", False), ("(?!\\p{%s}).", True), ("\\p{%s}+", False), ("(?i)\\p{%s}", False)]
    for n, (s, ch) in r.sample(names, 160 if ck.quick else 1500):
        f, neg = r.choice(forms)
        m = n
        if r.random() < .5:
            m = "=".join(r.choice([str.upper, str.title, str.capitalize])(x) for x in n.split("="))
        if r.random() < .3:
            m = m.replace("scx=", "script_extension=").replace("sc=", "Script=") if not m.startswith("age") else m
        cases.append(UcdCase(f % m, s, neg, ch))
    r.shuffle(cases)
    objs = [ck.reflib(), ck.obj("main_ucd.cpp", "main_ucd.o", std="c++17", opt="-O2")]

    def handle(rec):
        if "case" in rec:
            ck.add(rec["evals"], 1 if 0 < rec["accepted"] < rec["evals"] else 0, {"pattern": rec["case"], "code_points": rec["evals"], "accepted": rec["accepted"]} if r.random() < .01 else None, property_escapes=1, accepted=rec["accepted"])
    ck.cov["distinct_sets"] = len(data["sets"])
    ck.rule = "every documented property name and alias (general categories, binary properties, scripts, script extensions, blocks, ages), and a sample of them negated, in sets and in other spellings, on all 284 thousand characters assigned in Unicode 14.0; compared with perl's database restricted to that version (11 characters whose casing or alphabetic property changed in 15.0 left out of those properties); non-trivial: some characters accepted, some not"
    ck.wait(ck.batch(cases, render, args=[sets], link=objs, per=40, timeout=800, handle=handle, flags=FAST, opt="-O1"))
