"""Shared machinery of the checks: builds the harness from /repo, runs TLC and compares.

Only two outcomes exist: exit 0, or exit 1 with a VIOLATION line. Anything else (the harness does not
build, TLC fails, a mismatch is not reproducible) ends with exit status 3: an error of the check.
"""
import hashlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
JUDGED = 50 << 20  # bytes of traces that TLC is given at once


class CheckError(Exception):
    pass


def die(msg):
    raise CheckError(msg)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % prop)
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": []}
        self.assumptions = []
        self.violations = []   # (kind, detail dict)
        self.known = [k for k in load_known() if k.get("status") == "known" and k.get("property") == prop]
        self.known_hit = {}
        self.h3 = None

    # ---------------------------------------------------------------- building
    def build(self, race=False):
        out = os.path.join(self.dir, "h3race" if race else "h3")
        env = goenv()
        src = os.path.join(VERIF, "harness")
        if REPO != "/repo":
            src = os.path.join(self.dir, "harness")
            if not os.path.exists(src):
                shutil.copytree(os.path.join(VERIF, "harness"), src)
                p = os.path.join(src, "go.mod")
                s = open(p).read().replace("=> /repo", "=> " + REPO)
                open(p, "w").write(s)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        r = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("the harness does not build against %s:\n%s" % (REPO, r.stdout[-3000:]))
        if not race:
            self.h3 = out
        return out

    # ---------------------------------------------------------------- running the real code
    def run(self, cases, timeout=20, workers=WORKERS, exe=None, env=None, fresh=False):
        """Runs the cases in the real code and returns the observations, in order."""
        exe = exe or self.h3 or self.build()
        self._n = getattr(self, "_n", 0) + 1
        fi = os.path.join(self.dir, "in%d" % self._n)
        fo = os.path.join(self.dir, "out%d" % self._n)
        with open(fi, "w") as f:
            for c in cases:
                f.write(json.dumps(c, ensure_ascii=False, separators=(",", ":")) + "\n")
        e = dict(os.environ, TMPDIR=self.dir)
        e.update(env or {})
        r = subprocess.run([exe, "run", "-in", fi, "-out", fo, "-workers", str(workers), "-timeout", str(timeout)] + (["-fresh"] if fresh else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        if r.returncode != 0:
            die("harness: " + r.stdout[-2000:])
        with open(fo) as f:
            res = [json.loads(l) for l in f]
        os.remove(fi)
        os.remove(fo)
        if len(res) != len(cases):
            die("harness returned %d results for %d cases" % (len(res), len(cases)))
        for x in res:
            if x.get("fail") in ("harness", "encode"):
                die("harness: %s" % x)
        return res

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, env=None, cfg=None, simulate=None, depth=None, workers=WORKERS, timeout=840, heap="10g",
            consts=None, check=True, quiet=False):
        """Runs TLC on spec/<module>.tla and returns (stdout lines, generated, distinct)."""
        self._t = getattr(self, "_t", 0) + 1
        # Only for experiments with many changed trees: what does not depend on the code is explored once.
        kept = None
        if os.environ.get("VERIF_TLC_CACHE") and not env:
            h = hashlib.sha256(repr((module, cfg, simulate, depth, consts, self.seed if simulate else 0)).encode())
            for f in sorted(os.listdir(SPEC)):
                h.update(open(os.path.join(SPEC, f), "rb").read())
            kept = os.path.join(os.environ["VERIF_TLC_CACHE"], h.hexdigest())
            if os.path.exists(kept):
                with open(kept, "rb") as f:
                    return pickle.load(f)
        meta = os.path.join(self.dir, "meta%d" % self._t)
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        path = os.path.join(SPEC, module + ".tla")
        if consts:
            # a module that gives the constants their values
            s = open(cfgp).read() + "\nCONSTANTS\n" + "\n".join("  %s <- def_%s" % (k, k) for k in consts) + "\n"
            name = "%s_run%d" % (module, self._t)
            cfgp = os.path.join(self.dir, name + ".cfg")
            open(cfgp, "w").write(s)
            path = os.path.join(self.dir, name + ".tla")
            open(path, "w").write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (
                name, module, "\n".join("def_%s == %s" % kv for kv in consts.items())))
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + self.dir, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
               "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-metadir", meta, "-workers", str(workers),
               "-config", cfgp]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(path)
        e = dict(os.environ, TMPDIR=self.dir)
        e["JAVA_TOOL_OPTIONS"] = ""
        e.update({k: str(v) for k, v in (env or {}).items()})
        out = os.path.join(self.dir, "tlc%d.out" % self._t)
        t0 = time.time()
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=self.dir, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                die("TLC on %s took more than %d s" % (module, timeout))
        lines = open(out, errors="replace").read().splitlines()
        shutil.rmtree(meta, ignore_errors=True)
        gen = dist = 0
        for l in lines:
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", l)
            if m:
                gen = dist = int(m.group(1))
        if check and r.returncode != 0:
            txt = [l for l in lines if not l.startswith('"')]
            die("TLC on %s failed (%d):\n%s" % (module, r.returncode, "\n".join(l for l in txt if not l.startswith(("Parsing", "Semantic proc")))[-3500:]))
        if not quiet:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["models"].append({"module": module, "consts": consts or {}, "states": dist, "transitions": gen,
                                       "wall_s": round(time.time() - t0, 1)})
        if kept:
            with open(kept + ".%d" % os.getpid(), "wb") as f:
                pickle.dump((lines, gen, dist), f)
            os.rename(kept + ".%d" % os.getpid(), kept)
        return lines, gen, dist

    def emitted(self, lines, tag="CASE"):
        """JSON values printed by a specification with PrintT(tag \\o " " \\o ToJson(v))."""
        r = []
        pre = '"%s ' % tag
        for l in lines:
            if l.startswith(pre):
                r.append(json.loads(json.loads(fixesc(l))[len(tag) + 1:]))
        return r

    # ---------------------------------------------------------------- conformance
    def replay(self, behaviours, op, mk=None, timeout=20, compare=None, key=None):
        """Replays behaviours of a specification, each [in |-> ..., exp |-> ...], in the real code."""
        cases = [dict(mk(b) if mk else b["in"], op=op) for b in behaviours]
        res = self.run(cases, timeout)
        bad = 0
        for b, c, r in zip(behaviours, cases, res):
            if r.get("fail") == "skipped":
                continue
            ok = compare(b, r) if compare and "fail" not in r else r == b["exp"]
            if not ok:
                bad += 1
                if bad <= 20 and len(self.violations) < 5:
                    self.mismatch(c, b["exp"], r, lambda c, r, b=b: (compare(b, r) if compare and "fail" not in r else r == b["exp"]))
        self.cov["traces_validated_against_impl"] += len(cases)
        return res

    def judge(self, module, recs, consts=None, timeout=840, rerun=None, project=None):
        """Has TLC judge recorded behaviours of the real code against the specification.

        recs: list of dicts with at least {"case":..., "out":...} (what TLC sees is project(rec) or rec).
        The specification prints BAD lines for those that are not behaviours it allows."""
        self.cov["traces_validated_against_impl"] += len(recs)
        good = []
        for r in recs:
            if isinstance(r.get("out"), dict) and r["out"].get("fail") == "skipped":
                continue
            if isinstance(r.get("out"), dict) and "fail" in r["out"]:
                # crash or hang: no behaviour of any specification; reproduce
                for _ in range(3):
                    again = rerun([r["case"]])[0] if rerun else r
                    if "fail" in again["out"]:
                        self.violations.append({"case": r["case"], "expected": "an answer", "observed": again["out"]})
                        break
                else:
                    self.cov.setdefault("unreproduced", []).append(r["case"])
                if len(self.violations) >= 5:
                    break
            else:
                good.append(r)
        recs = good
        if not recs:
            return
        text = [json.dumps(project(r) if project else r, ensure_ascii=True, separators=(",", ":")) for r in recs]
        i = 0
        while i < len(recs) and len(self.violations) < 5:
            n, size = 0, 0
            while i + n < len(recs) and (n == 0 or size + len(text[i + n]) < JUDGED):
                size += len(text[i + n])
                n += 1
            self._judge(module, recs[i:i + n], text[i:i + n], consts, timeout, rerun, project)
            i += n

    def _judge(self, module, recs, text, consts, timeout, rerun, project):
        self._j = getattr(self, "_j", 0) + 1
        fn = os.path.join(self.dir, "trace%d.ndjson" % self._j)
        with open(fn, "w") as f:
            f.write("\n".join(text) + "\n")
        lines, gen, dist = self.tlc(module, env={"CASES": fn}, consts=consts, timeout=timeout)
        if dist != len(recs) + WORKERS:
            die("TLC on %s consumed %d of %d traces" % (module, dist - WORKERS, len(recs)))
        bad = self.emitted(lines, "BAD")
        seen = set()
        bads = []
        for b in bad:
            if b["i"] not in seen:
                seen.add(b["i"])
                bads.append(b)
        bads.sort(key=lambda b: b["i"])
        os.remove(fn)
        for b in bads[:12]:
            if len(self.violations) >= 5:
                break
            rec = recs[b["i"] - 1]
            self._judge_one(module, rec, b, consts, rerun, project)
        for k in self.emitted(lines, "KNOWN"):
            self.known_hit.setdefault(k["id"], recs[k["i"] - 1].get("case"))

    def _judge_one(self, module, rec, b, consts, rerun, project):
        # reproduce: run the case again and judge it again on its own
        again = rerun([rec["case"]])[0] if rerun else None
        if again is not None:
            fn = os.path.join(self.dir, "again.ndjson")
            with open(fn, "w") as f:
                f.write(json.dumps(project(again) if project else again, separators=(",", ":")) + "\n")
            lines, _, _ = self.tlc(module, env={"CASES": fn}, consts=consts, quiet=True)
            if not self.emitted(lines, "BAD"):
                again2 = [rerun([rec["case"]])[0] for _ in range(10)]
                with open(fn, "w") as f:
                    for a in again2:
                        f.write(json.dumps(project(a) if project else a, separators=(",", ":")) + "\n")
                lines, _, _ = self.tlc(module, env={"CASES": fn}, consts=consts, quiet=True)
                if not self.emitted(lines, "BAD"):
                    self.cov.setdefault("unreproduced", []).append(rec["case"])
                    return
        self.violations.append({"case": rec["case"], "expected": b.get("exp"), "observed": rec.get("out"), "judge": module})

    def mismatch(self, case, exp, got, same=None):
        """Records a difference after reproducing it."""
        for _ in range(3 if got.get("fail") == "hang" else 11):
            r = self.run([case])[0]
            if not (same(case, r) if same else r == exp):
                self.violations.append({"case": case, "expected": exp, "observed": r})
                return
        self.cov.setdefault("unreproduced", []).append(case)

    def sample(self, *xs):
        for x in xs:
            if len(self.cov["samples"]) < 12:
                s = json.dumps(x, ensure_ascii=True)
                self.cov["samples"].append(x if len(s) < 4000 else s[:4000])

    # ---------------------------------------------------------------- ending
    def finish(self):
        listed = {k["id"]: k for k in self.known}
        for i, case in self.known_hit.items():
            if i in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, i, listed[i]["what"]))
            else:
                self.violations.append({"case": case, "expected": "not the behaviour called " + i, "observed": "it"})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.cov.get("unreproduced") and not self.violations:
            print("error: %d differences could not be reproduced: %s" %
                  (len(self.cov["unreproduced"]), json.dumps(self.cov["unreproduced"][0])[:2000]))
            return 3
        if self.violations:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump(self.violations, f, indent=1)
            v = self.violations[0]
            print("expected: %s" % json.dumps(v["expected"])[:1500])
            print("observed: %s" % json.dumps(v["observed"])[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("ok %s: %d states, %d behaviours validated against the code, %.1f s" % (
            self.prop, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def fixesc(l):
    return l


def goenv():
    e = dict(os.environ)
    e.update({"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off"})
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    return e


def load_known():
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return []
    r = []
    for l in open(p):
        l = l.strip()
        if l.startswith("{"):
            r.append(json.loads(l))
    return r


def main(argv):
    import importlib
    prop = argv[1]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    c = Check(prop, tier, seed)
    try:
        importlib.import_module(prop.lower()).check(c)
        rc = c.finish()
    except CheckError as e:
        print("error: %s" % e)
        rc = 3
        if c.violations:
            rc = c.finish()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.cleanup()
        else:
            print("kept", c.dir)
    return rc
