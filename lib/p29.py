"""P29: the interface of the Unicode database (uni::), every code point, against a frozen copy of the database."""
import gzip, random
from harness import *


class ApiCase:
    def __init__(self, name, preds, enums, part, parts, tables):
        self.pattern, self.preds, self.enums, self.part, self.parts, self.tables = name, preds, enums, part, parts, tables

    def __str__(self):
        return self.pattern


def render(cases):
    c = cases[0]
    o = ['#include "monapi.hpp"\nstatic const api::Pred preds[] = {\n']
    for fn, enum, name, st, ch in c.preds:
        o.append('{"%s", &uni::%s<uni::%s::%s>, %d, "%s", %s},\n' % (name, fn, enum, name, st, " ".join(map(str, ch)), "true" if name in ("c", "other", "cn", "unassigned") else "false"))
    o.append("};\nstatic const api::Enum enums[] = {\n")
    for kind, f, name, s in c.enums:
        o.append('{"%s", "%s", long(uni::%s::%s), long(uni::detail::%s("%s"))},\n' % (kind, name, kind, name, f, s))
    o.append("};\nint main(int, char ** argv) { return api::sweep(argv[1], argv[2], preds, sizeof(preds) / sizeof(preds[0]), enums, sizeof(enums) / sizeof(enums[0]), %d, %d, %s); }\n" % (c.part, c.parts, "true" if c.tables else "false"))
    # answers as constant expressions too
    return "".join(o)


def p29(ck):
    r = random.Random("P29-%d" % ck.seed)
    v = json.loads(gzip.open(os.path.join(VERIF, "data", "ucd14v.json.gz")).read())
    u = json.loads(gzip.open(os.path.join(VERIF, "data", "ucd14.json.gz")).read())
    maps, sets = ck.path("maps.txt"), ck.path("sets.txt")
    with open(maps, "w") as f:
        for k, l in v.items():
            if k != "enums":
                f.write("=%s\n" % k + "".join("%d\t%s\n" % (c, x) for c, x in l))
    with open(sets, "w") as f:
        for l in [u["mask"]] + u["sets"]:
            f.write(" ".join(map(str, l)) + "\n")
    names, E = u["names"], v["enums"]
    preds, enums = [], []
    for n in E["category"]:
        if n in names:
            preds.append(("cp_category_is", "category", n) + tuple(names[n]))
            enums.append(("category", "category_from_string", n, n))
    for n in E["property"]:
        if n in names:
            preds.append(("cp_property_is", "property", n) + tuple(names[n]))
    for n in E["script"]:
        if "sc=" + n in names:
            # (uni::cp_script_is is declared by the interface, defined nowhere: nothing to observe)
            enums.append(("script", "script_from_string", n, n))
    for n in E["block"]:
        if "block=" + n in names:
            enums.append(("block", "block_from_string", n, n))
    for n in E["version"]:
        if n[0] == "v":
            enums.append(("version", "age_from_string", n, n[1:].replace("_", ".")))
    # each predicate in one build at least, the tables in all
    builds = [("g++", "c++20", "-O2", []), ("clang++", "c++17", "-O1", []), ("g++", "c++17", "-O1", ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])]
    r.shuffle(preds)
    futs = []
    for n, (cxx, std, opt, fl) in enumerate(builds):
        def handle(rec, conf="%s -std=%s %s %s" % (cxx, std, opt, " ".join(fl))):
            if "violation" in rec:
                ck.violation(kind="database", pattern=rec["name"], what=rec["violation"], codepoint=rec["codepoint"], got=rec["got"], expected=rec["expected"], configuration=conf)
            elif "evals" in rec:
                ck.add(rec["evals"], rec["distinct"] + rec["predicates"], {"configuration": conf, **rec}, predicates=rec["predicates"], code_points_with_a_value=rec["valued"], script_extensions=rec["extensions"])
        parts = 4 if not fl or not ck.quick else 8
        for part in range(4):
            c = ApiCase("interface of the Unicode database, part %d" % part, preds, enums, part + (r.randrange(2) * 4 if parts == 8 else 0), parts, part == 0)
            futs += ck.batch([c], render, args=[maps, sets], handle=handle, name="u%d_%d" % (n, part), cxx=cxx, std=std, flags=fl, opt=opt, timeout=800)
    ck.rule = "all 1114112 code points (and some beyond) through cp_category, cp_script, cp_script_extensions, cp_age, cp_block, cp_numeric_value, cp_is_*; all assigned ones through every cp_category_is, cp_property_is; every enumerator against its name; perl's database restricted to Unicode 14.0; three builds, one with address and undefined-behaviour sanitizers; distinct: different property values met plus predicates"
    ck.wait(futs)
