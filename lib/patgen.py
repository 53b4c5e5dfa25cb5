"""Random generators of patterns from the documented syntax, weighted by feature."""
import random

DEFAULT = dict(letters="ab", string=0, char=10, any=2, set=2, cls=1, cap=3, named=0, group=3, atomic=0, ahead=0, behind=0,
               backref=0, anchor=0, wordb=0, empty=1, rep=35, quants="*+?", lazy=25, poss=15, counts=True, alt=35, depth=3, seqlen=3,
               classes=[r"\w", r"\d", r"\s"], sets=None, maxgroups=6, ci_letters="")


class Gen:
    def __init__(self, rng, **cfg):
        self.r = rng
        self.c = dict(DEFAULT)
        self.c.update(cfg)

    def pattern(self):
        self.groups = 0
        self.names = []
        self.closed = []
        self.open = []
        self.behind = 0
        p = self.alts(self.c["depth"])
        return p

    def letter(self):
        l = self.r.choice(self.c["letters"])
        return {"\n": r"\n", "-": "-", ".": r"\.", "*": r"\*", "+": r"\+"}.get(l, l)

    def alts(self, d):
        r = self.r
        n = 1
        if r.randrange(100) < self.c["alt"]:
            n = r.choice([2, 2, 3])
        hole = r.choice([0, n - 1]) if n > 1 and r.randrange(100) < self.c["empty"] * 4 else None
        parts = ["" if i == hole else self.seq(d) for i in range(n)]
        return "|".join(parts)

    def seq(self, d):
        return "".join(self.rep(d) for _ in range(self.r.randint(1, self.c["seqlen"])))

    def rep(self, d):
        a = self.atom(d)
        r = self.r
        if r.randrange(100) >= self.c["rep"]:
            return a
        return a + self.quant()

    def quant(self):
        r = self.r
        k = r.randrange(100)
        nosuffix = False
        if self.c["counts"] and k < 30:
            form = r.randrange(4)
            if form == 0:
                q = "{%d}" % r.choice([0, 1, 1, 2, 2, 2, 3, 3, 3])
                nosuffix = True
            elif form == 1:
                q = "{%d,}" % r.randint(0, 3)
            else:
                lo = r.randint(0, 2)
                q = "{%d,%d}" % (lo, max(1, lo + r.randint(0, 2)))
        else:
            q = r.choice(self.c["quants"])
        if nosuffix:
            return q
        k = r.randrange(100)
        if k < self.c["lazy"]:
            q += "?"
        elif k < self.c["lazy"] + self.c["poss"]:
            q += "+"
        return q

    def set(self):
        r = self.r
        if self.c["sets"] and r.random() < .5:
            return r.choice(self.c["sets"])
        L = self.c["letters"].replace("\n", "").replace("-", "")
        neg = "^" if r.random() < .35 else ""
        items = []
        for _ in range(r.randint(1, 3)):
            k = r.randrange(10)
            if k < 5:
                items.append(r.choice(L))
            elif k < 8:
                x, y = sorted((r.choice(L), r.choice(L)))
                items.append(x + "-" + y)
            else:
                items.append(r.choice(self.c["classes"]))
        if items[0] == "^":
            items[0] = r"\^"
        return "[" + neg + "".join(items) + "]"

    def atom(self, d):
        r, c = self.r, self.c
        kinds = ["char", "string", "any", "set", "cls"]
        if d > 0:
            kinds += ["group", "atomic", "ahead"]
            if self.groups < c["maxgroups"]:
                kinds += ["cap", "named"]
            kinds += ["behind"]
        if self.closed or self.open:
            kinds.append("backref")
        kinds += ["anchor", "wordb"]
        w = [c[k] for k in kinds]
        k = r.choices(kinds, w)[0]
        if k == "char":
            return self.letter()
        if k == "string":
            return "".join(self.letter() for _ in range(r.randint(2, 4)))
        if k == "any":
            return "."
        if k == "set":
            return self.set()
        if k == "cls":
            return r.choice(c["classes"])
        if k == "anchor":
            return r.choice(["^", "$", r"\A", r"\z", r"\Z"])
        if k == "wordb":
            return r.choice([r"\b", r"\b", r"\B"])
        if k == "group":
            return "(?:" + self.alts(d - 1) + ")"
        if k == "atomic":
            return "(?>" + self.alts(d - 1) + ")"
        if k == "ahead":
            b = self.behind
            s = r.choice(["(?=", "(?!"]) + self.alts(d - 1) + ")"
            return s
        if k == "behind":
            self.behind += 1
            s = r.choice(["(?<=", "(?<!"]) + self.alts(d - 1) + ")"
            self.behind -= 1
            return s
        if k in ("cap", "named"):
            self.groups += 1
            me = self.groups
            nm = None
            if k == "named":
                nm = r.choice(["n", "name", "x_", "Abc"]) + str(me)
            self.open.append((me, nm))
            s = ("(?<%s>" % nm if nm else "(") + self.alts(d - 1) + ")"
            self.open.pop()
            self.closed.append((me, nm))
            return s
        if k == "backref":
            # a reference inside of its own group asks for the value the previous iteration captured
            i, nm = r.choice(self.open if self.open and (not self.closed or r.random() < .3) else self.closed)
            forms = [r"\%d" % i if i < 10 else None, r"\g{%d}" % i, r"\g{-%d}" % (self.groups + 1 - i)]
            if nm:
                forms += [r"\g{%s}" % nm] * 2
            return r.choice([f for f in forms if f])
        raise AssertionError(k)


def many(rng, n, seen=None, **cfg):
    g = Gen(rng, **cfg)
    seen = set() if seen is None else seen
    out = []
    tries = 0
    while len(out) < n and tries < n * 50:
        tries += 1
        p = g.pattern()
        if len(p) > 60 or not p or p in seen:
            continue
        # \1 followed by a digit would be read as \1 then the digit: fine, but \g relative numbers inside their group are not generated
        seen.add(p)
        out.append(p)
    return out
