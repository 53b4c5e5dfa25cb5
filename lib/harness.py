"""Common machinery of the checks: builds monitors from /repo's current tree, runs them, judges their reports, writes evidence."""
import atexit, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
FAST = ["-Dalways_inline=__unused__"]  # the library's forced inlining only costs compile time here; P21 and others build without this
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]


class Inconclusive(Exception):
    pass


def cstr(s):
    """C++ literal body for arbitrary text (unicode allowed)"""
    out = []
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif o == 0:
            out.append("\\0\"\"")
        elif o < 32 or o == 127:
            out.append("\\%03o" % o)
        elif ch == "?":
            out.append("\\?")
        else:
            out.append(ch)
    return "".join(out)


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="ctre-%s-" % pid)
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)
        self.lock = threading.Lock()
        self.evaluations = 0
        self.nontrivial = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.known_hit = {}
        self.errors = []
        self.inconclusive = []
        self.rule = ""
        self.assumptions = []
        self.hangs = 0
        # a run gives an answer in time even when the library got slow or hangs: what is left then is skipped and counted as inconclusive
        self.deadline = self.t0 + (600 if self.quick else 6 * 3600)
        self.level = "exploration"
        self.known = []
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k.get("status") == "known" and k["property"] == pid:
                        self.known.append(k)

    # ------------------------------------------------------------------ building
    def path(self, name):
        return os.path.join(self.work, name)

    def run(self, cmd, timeout, **kw):
        """returns (rc, stdout, stderr); rc None on timeout. The whole process group is ended."""
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, e = p.communicate()
            return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")

    def compile(self, src, out, cxx="g++", std="c++20", flags=(), link=(), inc=None, timeout=600, only_syntax=False, opt="-O0"):
        inc = inc if inc is not None else [os.path.join(REPO, "include")]
        cmd = [cxx, "-std=" + std, opt, "-w"] + list(flags) + ["-I" + LIB] + ["-I" + i for i in inc]
        if cxx.startswith("clang"):
            cmd += ["-fconstexpr-steps=100000000", "-fbracket-depth=4096", "-ftemplate-depth=4096"]
        else:
            cmd += ["-ftemplate-depth=4096", "-fconstexpr-ops-limit=1000000000", "-fconstexpr-loop-limit=10000000"]
        if only_syntax:
            cmd += ["-fsyntax-only", src]
        elif out.endswith(".o"):
            cmd += ["-c", src, "-o", out]
        else:
            cmd += [src, "-o", out] + list(link)
        rc, o, e = self.run(cmd, timeout)
        if rc is None:
            raise Inconclusive("compiler timeout: " + src)
        if rc < 0 or "internal compiler error" in e or "Killed" in e or "out of memory" in e or "cannot allocate" in e.lower() or "No space left" in e:
            raise Inconclusive("compiler failure: " + e[-300:])
        return rc == 0, e

    def reflib(self, flags=(), cxx="g++", name="ref.o", opt="-O2"):
        out = self.path(name)
        ok, e = self.compile(os.path.join(LIB, "ref.cpp"), out, cxx=cxx, std="c++17", flags=list(flags), opt=opt, inc=[])
        if not ok:
            raise RuntimeError("reference engine does not build: " + e[-2000:])
        return out

    def obj(self, source, name, opt="-O1", **kw):
        out = self.path(name)
        ok, e = self.compile(os.path.join(LIB, source), out, opt=opt, **kw)
        if not ok:
            raise RuntimeError(source + " does not build: " + e[-3000:])
        return out

    def sanity(self):
        """is the library usable at all? (otherwise a compile failure says nothing about a pattern)"""
        with self.lock:
            if not hasattr(self, "_sanity"):
                src = self.path("sanity.cpp")
                open(src, "w").write('#include <ctre-unicode.hpp>\n#include <string_view>\nint main(int, char ** v) { return bool(ctre::match<"a">(std::string_view(v[0]))); }\n')
                try:
                    self._sanity = self.compile(src, self.path("sanity"), flags=FAST)[0]
                except Inconclusive:
                    self._sanity = False
            return self._sanity

    # ------------------------------------------------------------------ reports
    def match_known(self, rec):
        for k in self.known:
            if all(re.fullmatch(str(v), str(rec.get(f, "")), re.S) for f, v in k["match"].items()):
                return k
        if self.violations and os.environ.get("VERIF_FIRST"):  # development: one violation is enough
            return "skipped: a violation was found"
        return None

    def violation(self, **rec):
        k = self.match_known(rec)
        with self.lock:
            if k is not None:
                self.known_hit[k["id"]] = k
                return
            self.violations.append(rec)

    def add(self, evals=0, nontrivial=0, sample=None, **cov):
        with self.lock:
            self.evaluations += evals
            self.nontrivial += nontrivial
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
            for k, v in cov.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def finish(self, min_evals=1):
        self.pool.shutdown(wait=True)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        seen, uniq = set(), []
        for v in self.violations:
            key = json.dumps({a: b for a, b in v.items() if a in ("kind", "pattern", "what")}, sort_keys=True)
            if key not in seen:
                seen.add(key)
                uniq.append(v)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
              "coverage": dict({"evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial, "rule": self.rule, "samples": self.samples}, **self.cov),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(uniq)}
        if self.inconclusive:
            ev["coverage"]["inconclusive"] = len(self.inconclusive)
            ev["coverage"]["inconclusive_samples"] = self.inconclusive[:5]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if uniq:
            d = os.path.join(VERIF, "out", "replay")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(uniq[:10]):
                f = os.path.join(d, "%s-%d.json" % (self.pid, i))
                json.dump(dict(v, property=self.pid, seed=self.seed, tier=self.tier, rerun="VERIF_SEED=%d python3 checks/run.py %s %s" % (self.seed, self.pid, self.tier)), open(f, "w"), indent=1)
                short = {a: (b if len(str(b)) < 300 else str(b)[:300] + "...") for a, b in v.items()}
                print("  " + json.dumps(short, ensure_ascii=True))
                print("VIOLATION property=%s replay=%s" % (self.pid, f))
            if len(uniq) > 10:
                print("  (and %d more)" % (len(uniq) - 10))
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print("ERROR: " + e, file=sys.stderr)
            return 2
        if self.evaluations < min_evals or self.nontrivial < 1:
            print("ERROR: too little observed (%d evaluations, %d inconclusive: %s)" % (self.evaluations, len(self.inconclusive), self.inconclusive[:3]), file=sys.stderr)
            return 2
        print("OK property=%s evaluations=%d nontrivial=%d inconclusive=%d wall=%.1fs" % (self.pid, self.evaluations, self.nontrivial, len(self.inconclusive), time.time() - self.t0))
        return 0

    # ------------------------------------------------------------------ batches of cases
    def batch(self, cases, render, args=(), link=(), per=24, timeout=300, handle=None, name="b", env=None, **cc):
        """cases: list; render(list of cases) -> C++ text of a whole program (linked with `link`).
        A program that does not compile is bisected; a single case that does not is a violation.
        Programs print JSON lines; handle(record, cases_of_program)."""
        futs = []
        for i in range(0, len(cases), per):
            futs.append(self.pool.submit(self._one, "%s%d" % (name, i), cases[i:i + per], render, list(args), list(link), timeout, handle, env, cc))
        return futs

    def wait(self, futs):
        for f in futs:
            try:
                f.result()
            except Inconclusive as e:
                with self.lock:
                    self.inconclusive.append(str(e)[:300])
            except Exception as e:
                import traceback
                with self.lock:
                    self.errors.append("".join(traceback.format_exception(e))[-1500:])

    def stop_early(self):
        if time.time() > self.deadline:
            return "skipped: the run's time is up"
        if self.quick and len(self.violations) >= 10 and time.time() - self.t0 > 60:
            return "skipped: enough violations found"
        if self.violations and os.environ.get("VERIF_FIRST"):  # development: one violation is enough
            return "skipped: a violation was found"
        return None

    def _one(self, name, cases, render, args, link, timeout, handle, env, cc):
        why = self.stop_early()
        if why:
            raise Inconclusive(why)
        src, exe = self.path(name + ".cpp"), self.path(name)
        open(src, "w").write(render(cases))
        try:
            ok, err = self.compile(src, exe, link=link, **cc)
        except Inconclusive:
            if len(cases) > 1:
                h = len(cases) // 2
                for j, part in enumerate((cases[:h], cases[h:])):
                    try:
                        self._one(name + "abcdefgh"[j], part, render, args, link, timeout, handle, env, cc)
                    except Inconclusive as e:
                        with self.lock:
                            self.inconclusive.append(str(e)[:300])
                return
            raise
        if not ok:
            if len(cases) > 1:
                h = len(cases) // 2
                self._one(name + "a", cases[:h], render, args, link, timeout, handle, env, cc)
                self._one(name + "b", cases[h:], render, args, link, timeout, handle, env, cc)
                return
            if not self.sanity():
                raise RuntimeError("the library does not build at all")
            first = [l for l in err.splitlines() if "error" in l]
            self.violation(kind="does not compile", pattern=str(getattr(cases[0], "pattern", cases[0])), what="compile", error=(first or [err])[0][:600], source=open(src).read()[:4000])
            return
        os.remove(src)
        self.execute(exe, args, cases, timeout, handle, env)
        os.remove(exe)

    def execute(self, exe, args, cases, timeout, handle, env=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:allocator_may_return_null=1:max_malloc_fill_size=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66"
        if env:
            e.update(env)
        start = 0
        retried = set()
        while True:
            why = self.stop_early()
            if why:
                raise Inconclusive(why)
            rc, out, err = self.run([exe] + [str(a) for a in args] + ["--from=%d" % start], max(5, min(timeout, self.deadline + 30 - time.time())), env=e)
            done = False
            stop = None
            last = start - 1
            for line in out.splitlines():
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                if "done" in rec:
                    done = True
                elif rec.get("violation") in ("hang", "crash", "abort"):
                    stop = rec
                elif "violation" in rec:
                    self.violation(**dict(self.describe(rec), kind=rec.pop("violation")))
                elif "error" in rec:
                    with self.lock:
                        self.errors.append(json.dumps(rec))
                else:
                    if "case" in rec:
                        last = max(last, rec.get("i", last))
                    if handle:
                        handle(rec)
            if done:
                return
            if stop is not None:
                at = stop.get("i", last + 1)
                if at in retried or stop["violation"] != "hang" or self.hangs >= 2:
                    self.hangs += stop["violation"] == "hang"
                    rep = [l for l in err.splitlines() if "ERROR: " in l or "runtime error" in l or "Assertion" in l or "SUMMARY" in l]
                    self.violation(**dict(stop, kind=stop.pop("violation"), report="; ".join(rep)[:800]))
                    start = at + 1
                    if start >= len(cases):
                        return
                else:
                    retried.add(at)
                    start = at
                continue
            if rc is None:
                raise Inconclusive("monitor ran out of time at case %d" % (last + 1))
            if rc is not None and rc < 0 and rc != -9:
                rep = [l for l in err.splitlines() if "ERROR: " in l or "runtime error" in l or "Assertion" in l or "SUMMARY" in l]
                c = cases[last + 1] if last + 1 < len(cases) else None
                self.violation(kind="crash", pattern=str(getattr(c, "pattern", c)), what="signal %d" % -rc, report="; ".join(rep)[:800])
                start = last + 2
                if start >= len(cases):
                    return
                continue
            if rc == -9:
                raise Inconclusive("monitor was killed")
            raise RuntimeError("monitor ended with %s: %s %s" % (rc, out[-300:], err[-800:]))

    @staticmethod
    def describe(rec):
        return {k: v for k, v in rec.items() if k != "violation"}
