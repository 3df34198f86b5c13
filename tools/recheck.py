"""Runs the checks again on planted bugs: recheck.py [ID ...]  Fills tools/caught.tsv, from which DESIGN.md is written."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TSV = os.path.join(VERIF, "tools", "caught.tsv")
LOCK = threading.Lock()


def rows():
    return {tuple(l.split("\t")[:2]): l.split("\t")[2] for l in open(TSV).read().splitlines()} if os.path.exists(TSV) else {}


def one(sid):
    d = os.path.join(VERIF, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    top = tempfile.mkdtemp(prefix="recheck-", dir="/tmp")
    try:
        repo = os.path.join(top, "repo")
        subprocess.check_call(["cp", "-a", "/repo", repo])
        if subprocess.call(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo):
            return sid, prop, "patch does not apply"
        p = subprocess.run([sys.executable, "check.py", prop], cwd=VERIF, env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        caught = p.returncode == 1 and "VIOLATION property=" + prop in out
        with LOCK:
            r = rows()
            r[sid, prop] = "caught" if caught else "missed"
            open(TSV, "w").write("".join("\t".join(k + (r[k],)) + "\n" for k in sorted(r)))
        return sid, prop, "caught" if caught else "missed rc=%d %s" % (p.returncode, out[-300:] if p.returncode != 0 else "")
    finally:
        shutil.rmtree(top, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_WORKERS", "2"))) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
