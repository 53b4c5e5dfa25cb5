"""P19: exactly the documented syntax is accepted; errors are located. Monitors the diagnostics of compilers
instantiating patterns, against an Earley recogniser for the frozen grammar (data/syntax.gram)."""
import random, re as pyre
from harness import *
import patgen

END = ""


class Grammar:
    def __init__(self, file):
        self.sets, self.rules = {}, {}
        text = open(file).read()
        for line in text.splitlines():
            line = line.rstrip("\n")
            m = pyre.match(r"([a-z_]+)=\{(.*)\}$", line)
            if m:
                self.sets[m.group(1)] = frozenset(self.chars(m.group(2)))
        for line in text.splitlines():
            if line.startswith("#") or "->" not in line or pyre.match(r"[a-z_]+=\{", line):
                continue
            lhs, rhs = line.split("->", 1)
            for alt in self.split(rhs, "|"):
                self.rules.setdefault(lhs.strip(), []).append([s for x in self.split(alt, ",") for s in self.symbol(x.strip())])
        named = set()
        for alts in self.rules.values():
            for alt in alts:
                for k, v in alt:
                    if k == "set":
                        named |= v
        self.named = frozenset(named)
        self.nullable = set()
        while True:
            n = len(self.nullable)
            for nt, alts in self.rules.items():
                if any(all(k == "nt" and v in self.nullable for k, v in a) for a in alts):
                    self.nullable.add(nt)
            if len(self.nullable) == n:
                break
        self.depth = {nt: 10**6 for nt in self.rules}
        for _ in range(200):
            for nt, alts in self.rules.items():
                self.depth[nt] = min(self.depth[nt], 1 + min(max([self.depth[v] for k, v in a if k == "nt"], default=0) for a in alts))

    @staticmethod
    def chars(t):
        out, i = [], 0
        while i < len(t):
            if t[i] == "\\" and i + 1 < len(t):
                out.append(t[i + 1])
                i += 2
            elif t[i] == ",":
                i += 1
            else:
                out.append(t[i])
                i += 1
        return out

    @staticmethod
    def split(t, sep):
        out, cur, q = [], "", False
        i = 0
        while i < len(t):
            c = t[i]
            if c == "\\":
                cur += t[i:i + 2]
                i += 2
                continue
            if c == '"':
                q = not q
            if c == sep and not q:
                out.append(cur)
                cur = ""
            else:
                cur += c
            i += 1
        return out + [cur]

    def symbol(self, x):
        if x == "epsilon" or x.startswith("["):
            return []
        if x.startswith("<"):
            return [("nt", x[1:-1])]
        if x.startswith('"'):
            return [("set", frozenset(c)) for c in x[1:-1]]
        if x == "other":
            return [("other", None)]
        if x in self.sets:
            return [("set", self.sets[x])]
        if x.startswith("\\") and len(x) == 2:
            return [("set", frozenset(x[1]))]
        assert len(x) == 1, x
        return [("set", frozenset(x))]

    def matches(self, sym, c):
        k, v = sym
        return c in v if k == "set" else c not in self.named

    def recognise(self, text):
        """(derived, index of the first character no derivable text could have there; len(text) if it is a proper prefix)"""
        cols = [set()]
        for alt in range(len(self.rules["S"])):
            cols[0].add(("S", alt, 0, 0))
        for i in range(len(text) + 1):
            if not cols[i]:
                return False, i - 1
            work = list(cols[i])
            cols.append(set())
            while work:
                nt, alt, dot, org = it = work.pop()
                rhs = self.rules[nt][alt]
                if dot == len(rhs):
                    for a in list(cols[org]):
                        r = self.rules[a[0]][a[1]]
                        if a[2] < len(r) and r[a[2]] == ("nt", nt):
                            n = (a[0], a[1], a[2] + 1, a[3])
                            if n not in cols[i]:
                                cols[i].add(n)
                                work.append(n)
                    continue
                s = rhs[dot]
                if s[0] == "nt":
                    for k in range(len(self.rules[s[1]])):
                        n = (s[1], k, 0, i)
                        if n not in cols[i]:
                            cols[i].add(n)
                            work.append(n)
                    if s[1] in self.nullable:
                        n = (nt, alt, dot + 1, org)
                        if n not in cols[i]:
                            cols[i].add(n)
                            work.append(n)
                elif i < len(text) and self.matches(s, text[i]):
                    cols[i + 1].add((nt, alt, dot + 1, org))
            cols[i] = frozenset(cols[i])
        last = cols[len(text)]
        return any(nt == "S" and org == 0 and dot == len(self.rules[nt][alt]) for nt, alt, dot, org in last), len(text)

    def derive(self, r, budget):
        out = []
        left = [budget]

        def go(nt, d):
            left[0] -= 1
            alts = self.rules[nt]
            if left[0] < 0 or d > 60:
                best = min(max([self.depth[v] for k, v in a if k == "nt"], default=0) for a in alts)
                alts = [a for a in alts if max([self.depth[v] for k, v in a if k == "nt"], default=0) == best]
            for k, v in r.choice(alts):
                if k == "nt":
                    go(v, d + 1)
                elif k == "set":
                    out.append(r.choice(sorted(v)))
                else:
                    out.append(r.choice(" ;'#%&@~`\x01\n\x7f") if r.random() < .8 else r.choice("éř€😀"))
        go("S", 0)
        return "".join(out)


def scan(t):
    """what the references of a (prefix of a) derivable text need: 'number' (a missing numbered group), 'name', 'property', 'range' (starting with a class), 'big' (a number which doesn't fit), 'skip' (not decided), '' """
    i, groups, names, wanted, other = 0, 0, set(), set(), []
    opened = []  # per open group: inside of a look-behind?
    def back(i, inset):
        m = pyre.match(r"\\g\{(-?)([0-9]+)\}", t[i:])
        if m and not inset:
            n = int(m.group(2))
            if m.group(1) and n == 0:
                other.append("skip")
            if n > groups:
                other.append("number")
            return i + m.end()
        m = pyre.match(r"\\g\{([A-Za-z_][A-Za-z0-9_]*)\}", t[i:])
        if m and not inset:
            wanted.add(m.group(1))
            return i + m.end()
        if i + 1 < len(t) and t[i + 1] in "123456789" and not inset:
            if int(t[i + 1]) > groups:
                other.append("number")
        m = pyre.match(r"\\[pP]\{([^}]*)\}", t[i:])
        if m:
            other.append("property")
            return i + m.end()
        m = pyre.match(r"\\[xu]\{([0-9a-fA-F]*)\}?", t[i:])
        if m and m.group(1) and int(m.group(1), 16) > 0xFFFFFFFF:
            other.append("big")
        return i + 2
    while i < len(t):
        c = t[i]
        if c == "\\":
            i = back(i, False)
        elif c == "[":
            i += 1
            if i < len(t) and t[i] == "^":
                i += 1
            while i < len(t) and t[i] != "]":
                if t[i] == "\\":
                    i = back(i, True)
                elif t.startswith("[:", i) and ":]" in t[i + 2:]:
                    i = t.index(":]", i + 2) + 2
                    if i < len(t) and t[i] == "-":
                        other.append("range")
                else:
                    i += 1
            i += 1
        elif c == ")":
            if opened:
                opened.pop()
            i += 1
        elif c == "(":
            m = pyre.match(r"\(\?[icsm]", t[i:])
            if m and any(opened):
                other.append("skip")  # known finding mode-switch-in-lookbehind
            opened.append(t.startswith(("(?<=", "(?<!"), i))
            m = pyre.match(r"\(\?<([A-Za-z_][A-Za-z0-9_]*)>", t[i:])
            if m:
                groups += 1
                names.add(m.group(1))
                i += m.end()
            else:
                if not t.startswith("(?", i):
                    groups += 1
                i += 1
        elif c == "{":
            m = pyre.match(r"\{([0-9]*),?([0-9]*)", t[i:])
            if any(x and int(x) >= 1 << 64 for x in m.groups()):
                other.append("big")
            i += 1
        else:
            i += 1
    if wanted - names:
        # where a repeat {2,1} makes the rest unreachable a missing name goes unnoticed: not decided
        other.append("skip" if any(int(b or 0) < int(a or 0) for a, b in pyre.findall(r"\{([0-9]*),([0-9]+)", t)) else "name")
    for k in ("skip", "number", "property", "range", "big", "name"):
        if k in other:
            return k
    return ""


class Text:
    def __init__(self, text, derived, pos, sem, use=False, want=None):
        self.text, self.derived, self.pos, self.sem, self.use = text, derived, pos, sem, use
        self.want = want if want is not None else (derived and not sem)

    def __str__(self):
        return self.text


def source(cases, unicode):
    o = ["#include <%s>\n#include <string_view>\n" % ("ctre-unicode.hpp" if unicode else "ctre.hpp")]
    lines = {}
    n = 3
    for i, c in enumerate(cases):
        lit = ('U"' if any(ord(x) > 127 for x in c.text) else '"') + cstr(c.text) + '"'
        if c.use:
            o.append("bool u%d(std::u32string_view s) { return bool(ctre::search<%s>(s)); }\n" % (i, lit))
        else:
            o.append("using t%d = decltype(ctre::match<%s>);\n" % (i, lit))
        lines[n] = i
        n += 1
    return "".join(o), lines


def diagnose(err, src, lines, cxx):
    """index -> (has error, reported position)"""
    res = {}
    base = pyre.escape(os.path.basename(src))
    cur, pend = None, []
    if cxx == "g++":
        for l in err.splitlines():
            m = pyre.search(base + r":(\d+):\d+:\s+(?:required from|in 'constexpr' expansion)", l) or pyre.match(r"\S*" + base + r":(\d+):\d+: error:", l)
            if m and int(m.group(1)) in lines:
                cur = lines[int(m.group(1))]
            if ": error:" in l and cur is not None:
                e = res.setdefault(cur, [True, None])
                p = pyre.search(r"problem_at_position<(\d+)", l)
                if p and e[1] is None:
                    e[1] = int(p.group(1))
    else:
        for l in err.splitlines():
            if ": error:" in l:
                p = pyre.search(r"problem_at_position<(\d+)", l)
                pend.append(int(p.group(1)) if p else None)
                m = pyre.match(r"\S*" + base + r":(\d+):\d+: error:", l)
            else:
                m = pyre.match(r"\S*" + base + r":(\d+):\d+: note:.*requested here", l)
            if m and int(m.group(1)) in lines and pend:
                e = res.setdefault(lines[int(m.group(1))], [True, None])
                for p in pend:
                    if p is not None and e[1] is None:
                        e[1] = p
                pend = []
    return res


def p19(ck):
    r = random.Random("P19-%d" % ck.seed)
    g = Grammar(os.path.join(VERIF, "data", "syntax.gram"))
    quick = ck.quick
    texts = {}

    def add(t):
        if len(t) <= 400 and t not in texts and "\r" not in t:
            texts[t] = None
    special = "a1\\.$()?:[]+*{},|^-<>=!\"_ ig"
    for a in [""] + list(special) + ["é", "\n", "\x00"]:
        add(a)
    two = [a + b for a in special for b in special]
    for t in (r.sample(two, 450) if quick else two):
        add(t)
    heads = ["(?", "[", "[^", "\\", "a{", "a{1", "a{1,", "(?<", "(?<n", "(?=a", "(", "(a|", "[a-", "[[:", "[[:alpha:", "\\x", "\\x{", "\\u", "\\g", "\\g{", "\\g{-", "\\p", "(?i", "(?i)", "a?", "a{1}", "a{1,2}", "[\\", "[a\\", "(?<=", "(?<!", "(?>", "()", "(a)", "(a)\\g{1", "(?<n>a)\\g{n", "\\u{4", "\\u00", "a|", "a||", "|", "(|", "(||", "^", "$", "(?:", "[[:^", "[a-\\", "[]", "[^]"]
    more = [h + c for h in heads for c in special + "n2bdpxuAzZBwWsSdDNvVhHntr0aefRkKQEGXcoG;&/é"]
    for t in (r.sample(more, 1100) if quick else more):
        add(t)
    escapes = ["\\" + chr(c) for c in range(1, 127)] + ["[\\" + chr(c) + "]" for c in range(1, 127)] + ["[a" + chr(c) + "]" for c in range(1, 127)] + ["[" + chr(c) + "-z]" for c in range(1, 127)] + ["[!-" + chr(c) + "]" for c in range(1, 127)] + ["(?" + chr(c) + "a)" for c in range(1, 127)]
    for t in (r.sample(escapes, 500) if quick else escapes):
        add(t)
    for _ in range(800 if quick else 8000):
        t = g.derive(r, r.choice([8, 15, 25, 40, 60]))
        if len(t) > 60:
            continue
        add(t)
        for _ in range(2):
            if not t:
                continue
            u = list(t)
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(6)
                p = r.randrange(len(u) + 1)
                if k == 0 and u:
                    del u[min(p, len(u) - 1)]
                elif k == 1:
                    u.insert(p, r.choice(special + "bd0;"))
                elif k == 2 and u:
                    u[min(p, len(u) - 1)] = r.choice(special + "bd0;")
                elif k == 3:
                    u = u[:p]
                elif k == 4 and len(u) > 1:
                    p = min(p, len(u) - 2)
                    u[p], u[p + 1] = u[p + 1], u[p]
                elif k == 5:
                    u += list(r.choice([")", "]", "}", "(", "[", "|", "*", "\\", "a", "?"]))
            add("".join(u))
    for t in patgen.many(r, 60 if quick else 600, None, **dict(ahead=3, behind=3, atomic=3, backref=4, named=2, anchor=3, wordb=3)):
        add(t)
    for _ in range(100 if quick else 2000):
        add("".join(r.choice(special) for _ in range(r.randint(3, 8))))
    for n in (120, 300):
        for t in ("a" * n, "(a|b)" * (n // 5), "[" + "ab" * (n // 2) + "]", "a?" * (n // 2), "(" * 40 + "a" + ")" * 40, "(?:" * 40 + "a" + ")*" * 40, "a" * n + ")", "a" * n + "**", "a|" * (n // 2)):
            add(t)
    edge = ("0", "1", "2", "9", "65535", "4294967295", "4294967296", "4294967297", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551626", "36893488147419103233", "184467440737095516160", "340282366920938463463374607431768211457", "0" * 24 + "1", "0" * 24 + "3")
    for n in edge:
        for f in ("a{%s}", "a{%s,}", "a{0,%s}?", "(?:a|b){%s}+", "a{%s", "(a)\\g{%s}", "(a)(b)\\g{-%s}", "(a)\\g{%s", "[ab]{2,%s}c"):
            add(f % n)
    for n in ("7F", "FFFFFFFF", "ffffffff", "100000000", "100000041", "1000000041", "10000000000000041", "1" + "0" * 32 + "41", "0" * 20 + "41", "FFFFFFFFF", "F00000041"):
        for f in ("\\x{%s}", "[\\x{%s}]", "[^b\\x{%s}c]", "[a-\\x{%s}]", "\\x{%s", "\\u{%s}"):
            add(f % n)
    cases, props = [], []
    for t in texts:
        derived, pos = g.recognise(t)
        sem = scan(t if derived else t[:pos + 1])
        if sem == "skip":
            continue
        if sem == "property":
            continue
        if len(t) > 100 and not derived and quick and r.random() < .3:
            continue
        cases.append(Text(t, derived, pos, sem, use=derived and "\\g{" in t))
    # properties: existing and non-existing names
    names = [("L", 1), ("Lu", 1), ("lu", 1), ("Letter", 1), ("Latin", 1), ("latn", 1), ("sc=Latin", 1), ("script=Greek", 1), ("scx=Grek", 1), ("block=Basic_Latin", 1), ("age=10.0", 1), ("Emoji", 1), ("Any", 1), ("ASCII", 1), ("gc=Lu", None), ("Zq", 0), ("Lux", 0), ("sc=Zqqx", 0), ("script=Lu", 0), ("block=Zqblock", 0), ("zq=Latin", 0), ("Latinx", 0), ("Emojix", 0), ("age=zq", 0), ("scx=Zqqx", 0), ("l_", None), ("xL", 0), ("Lq", 0)]
    for n, ok in names:
        if ok is None:
            continue
        for f in ("\\p{%s}", "\\P{%s}", "[\\p{%s}]", "a(\\P{%s})b"):
            t = f % n
            d, pos = g.recognise(t)
            props.append(Text(t, d, pos, "" if ok else "property", use=True))
    for t in ("\\p{L", "\\p{}", "\\pL", "\\p{L}}", "\\p{=L}", "\\p{L=}", "\\p{L==x}", "\\p{^L}", "[\\p{L]", "\\p{L L}", "\\p {L}", "\\p{L-u}"):
        d, pos = g.recognise(t)
        props.append(Text(t, d, pos, "" if not d else "property", use=True))
    cases += [Text(t, True, len(t), "") for t in ("(?<=(?i)a)b", "(?<!a(?i)b)c")]
    r.shuffle(cases)
    stat = {"located": 0, "rejected": 0}

    def run(name, cs, cxx, std, unicode):
        if not cs:
            return
        src = ck.path(name + ".cpp")
        text, lines = source(cs, unicode)
        open(src, "w").write(text)
        cmd = [cxx, "-std=" + std, "-fsyntax-only", "-w", "-I" + os.path.join(REPO, "include")] + FAST + (["-ferror-limit=0", "-fbracket-depth=2048"] if cxx != "g++" else ["-fmax-errors=0"])
        rc, o, e = ck.run(cmd + [src], 60 if len(cs) == 1 else 150)
        if rc is None or rc < 0 or "internal compiler error" in e:
            if len(cs) > 1:
                h = len(cs) // 2
                run(name + "a", cs[:h], cxx, std, unicode)
                run(name + "b", cs[h:], cxx, std, unicode)
                return
            if rc is None and ck.sanity():
                ck.violation(kind="parser does not terminate", pattern=cs[0].text, what=cxx)
                return
            raise Inconclusive("compiler failure on " + cs[0].text)
        res = diagnose(e, src, lines, cxx)
        if rc != 0 and not res:
            if not ck.sanity():
                raise RuntimeError("the library does not build at all")
            raise RuntimeError("diagnostics not understood: " + e[:600])
        os.remove(src)
        ev = rej = loc = 0
        for i, c in enumerate(cs):
            bad, pos = res.get(i, (False, None))
            ev += 1
            rej += bad
            if c.want and bad:
                ck.violation(kind="documented syntax rejected", pattern=c.text, what=cxx, position=pos)
            elif not c.want and not bad:
                ck.violation(kind="accepted", pattern=c.text, what=cxx, expected="rejected at %d" % c.pos if not c.derived else "rejected (%s)" % c.sem)
            elif bad and not c.derived and not c.sem:
                if pos is not None:
                    loc += 1
                if pos != c.pos:
                    ck.violation(kind="error at a wrong position", pattern=c.text, what=cxx, position=pos, expected=c.pos)
        ck.add(ev, rej, {"pattern": cs[0].text, "accepted": 0 not in res, "position": res.get(0, (0, None))[1]}, texts=ev, rejected=rej, accepted=ev - rej, located=loc)
    futs = []
    per = 40
    for k in range(0, len(cases), per):
        cxx = "clang++" if r.random() < .25 else "g++"
        std = "c++20"
        futs.append(ck.pool.submit(run, "t%d" % k, cases[k:k + per], cxx, std, False))
    futs.append(ck.pool.submit(run, "prop", props[:len(props) // 2], "g++", "c++20", True))
    futs.append(ck.pool.submit(run, "prop2", props[len(props) // 2:], "clang++", "c++20", True))
    ck.rule = "texts (all short ones over the special characters or a sample, every escape and head of a construct with every continuation or a sample, random derivations of the grammar, mutated ones, random ones, long ones) instantiated by gcc and clang; the diagnostics observed are compared with an Earley recogniser of the frozen grammar plus the existence of references and properties; non-trivial: rejected texts"
    ck.wait(futs)
