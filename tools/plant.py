"""Plants bugs: plant.py FILE.py [ID ...]

FILE.py defines BUGS, a list of dicts: id, prop, edits [(file, old, new)], main (Go statements of
main(), or a whole file starting with "package"), needs, breaks, and optionally also (further checks
that should see it).  For each bug: apply to a scratch copy of /repo, build, run the tests, run the demo
with and without the change, write /verif/seeded/<id>/, run the property's check on the changed copy and
print whether it is caught.
"""
import concurrent.futures as cf
import importlib.util, json, os, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
BASE = "6138493"

DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 1
cd "$t" && timeout 120 ./demo
'''

PRELUDE = '''
// check ends the program with status 1 if ok is false.
func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func must(err error) { check(err == nil, "unexpected error: %v", err) }
'''
PKG = '''
// pkg returns a zip with the parts given as name, content, name, content...
func pkg(parts ...string) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for i := 0; i < len(parts); i += 2 {
		w, err := z.Create(parts[i])
		must(err)
		_, err = w.Write([]byte(parts[i+1]))
		must(err)
	}
	must(z.Close())
	return b.Bytes()
}

const types = `<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="model" ContentType="application/vnd.ms-package.3dmanufacturing-3dmodel+xml"/><Default Extension="png" ContentType="image/png"/><Default Extension="xml" ContentType="application/xml"/></Types>`

const rt3d = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"

// rels returns a relationships part with the relationships given as target, type, target, type...
func rels(r ...string) string {
	s := `<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`
	for i := 0; i < len(r); i += 2 {
		s += fmt.Sprintf(`<Relationship Id="r%d" Target="%s" Type="%s"/>`, i, r[i], r[i+1])
	}
	return s + "</Relationships>"
}
'''

CORE = 'xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02"'


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode(errors="replace")


def stable(repo):
    """the names of the stable tests that do not pass"""
    want = json.load(open("/opt/vp/BASELINE.json"))
    p = subprocess.run("go test -json -vet=off -count=1 ./...", cwd=repo, env=ENV, shell=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    bad = []
    for line in p.stdout.decode(errors="replace").splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Action") in ("fail", "build-fail") :
            bad.append(e.get("Package", "") + " " + e.get("Test", ""))
    return p.returncode, bad


LOCK = threading.Lock()


def record(sid, prop, caught):
    """Keeps tools/caught.tsv, from which DESIGN.md is written."""
    path = os.path.join(VERIF, "tools", "caught.tsv")
    with LOCK:
        rows = dict((tuple(l.split("\t")[:2]), l) for l in open(path).read().splitlines()) if os.path.exists(path) else {}
        rows[sid, prop] = "%s\t%s\t%s" % (sid, prop, "caught" if caught else "missed")
        open(path, "w").write("".join(rows[k] + "\n" for k in sorted(rows)))


def plant(bug, check):
    sid = bug["id"]
    log = []
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(top, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        for f, old, new in bug["edits"]:
            path = os.path.join(repo, f)
            s = open(path).read()
            if s.count(old) != 1:
                return sid, "BAD: %d occurrences of %r in %s" % (s.count(old), old, f)
            open(path, "w").write(s.replace(old, new))
        rc, out = sh("gofmt -l $(git diff --name-only)", repo)
        if out.strip():
            sh("gofmt -w $(git diff --name-only)", repo)
        rc, diff = sh("git diff", repo)
        changed = {}
        cur = None
        orig = False
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                rc, basesrc = sh(["git", "show", BASE + ":" + cur], repo)
                lines = set(basesrc.splitlines())
            elif line.startswith("-") and not line.startswith("---"):
                if line[1:].strip() and line[1:] not in lines:
                    log.append("NOT-ORIGINAL: " + line)
                elif line[1:].strip():
                    orig = True
        if not orig:
            log.append("NO ORIGINAL LINE CHANGED")
        rc, out = sh("go build ./... && go vet ./... 2>&1 | head -3", repo)
        if rc:
            return sid, "BAD: build\n" + out
        rc, bad = stable(repo)
        if bad:
            return sid, "BAD: tests fail: " + ", ".join(bad[:6])
        dest = os.path.join(VERIF, "seeded", sid)
        tmp = os.path.join(top, "demo")
        os.makedirs(tmp)
        main = bug["main"]
        if not main.lstrip().startswith("package"):
            main = "package main\n" + PRELUDE + (PKG if "pkg(" in main or "rels(" in main else "") + "\nfunc main() {\n" + main + "\n}\n"
        main = main.replace("%CORE%", CORE)
        mf = os.path.join(tmp, "main.go")
        open(mf, "w").write(main)
        # goimports needs the module
        os.makedirs(os.path.join(repo, "zzdemo"))
        shutil.copy(mf, os.path.join(repo, "zzdemo", "main.go"))
        rc, out = sh("goimports -w zzdemo/main.go", repo)
        if rc:
            return sid, "BAD: goimports " + out
        shutil.copy(os.path.join(repo, "zzdemo", "main.go"), mf)
        shutil.rmtree(os.path.join(repo, "zzdemo"))
        open(os.path.join(tmp, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        rc, out = sh(["bash", os.path.join(tmp, "demo.sh")], "/repo")
        if rc:
            return sid, "BAD: demo fails on the unchanged tree: " + out[-600:]
        rc, out = sh(["bash", os.path.join(tmp, "demo.sh")], repo)
        if rc == 0:
            return sid, "BAD: demo passes with the change"
        log.append("demo: " + out.strip().splitlines()[-1][:150] if out.strip() else "demo: rc %d" % rc)
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(tmp, dest)
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(dest, "meta.json"), "w"), indent=1)
        if check:
            for p in [bug["prop"]] + bug.get("also", []):
                r = subprocess.run([sys.executable, "check.py", p], cwd=VERIF, env=dict(ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = r.stdout.decode(errors="replace")
                v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + p)]
                record(sid, p, r.returncode == 1 and bool(v))
                log.append("%s: %s" % (p, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, out.strip()[-400:] if r.returncode else "")))
        return sid, "ok  " + " | ".join(log)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in mod.BUGS if not ids or b["id"] in ids]
    workers = int(os.environ.get("PLANT_WORKERS", "2"))
    with cf.ThreadPoolExecutor(workers) as ex:
        for sid, res in ex.map(lambda b: plant(b, "--no-check" not in sys.argv), bugs):
            print(sid, res, flush=True)


main()
