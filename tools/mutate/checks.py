"""checks.py SURVIVORS OUT [N SEED]: which checks see which mutants."""
import json, os, queue, random, shutil, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ORDER = [("beamlattice/decoder", "C05 C02 C04"), ("beamlattice/encoder", "C02"), ("beamlattice/validate", "C15"), ("materials/decoder", "C05 C02 C04"), ("materials/encoder", "C02"), ("materials/validate", "C13"),
         ("slices/decoder", "C05 C02 C04"), ("slices/encoder", "C02"), ("slices/validate", "C14"), ("production/decoder", "C05 C02 C04"), ("production/encoder", "C02"), ("production/validate", "C16"),
         ("production/production", "C16"), ("uuid", "C23 C16"), ("importer", "C21 C08"), ("errors", "C26"), ("internal/xml/printer", "C01 C03"), ("internal/xml", "C06 C04"), ("math", "C25 C18 C20"), ("opc", "C09 C11"),
         ("utils", "C04"), ("read", "C06 C07 C09 C04 C08 C11"), ("decoder", "C05 C01 C03 C04 C06"), ("encoder", "C01 C09 C03 C10"), ("validate", "C12 C19 C17"), ("core", "C22 C19 C18 C12 C17 C01"),
         ("materials", "C02"), ("slices", "C02"), ("beamlattice", "C02")]
ms = [json.loads(l) for l in open(sys.argv[1])]
if len(sys.argv) > 3:
    random.Random(int(sys.argv[4])).shuffle(ms)
    # evenly over the files
    by = {}
    for m in ms:
        by.setdefault(m["file"], []).append(m)
    ms, want = [], int(sys.argv[3])
    while len(ms) < want and any(by.values()):
        for f in list(by):
            if by[f]:
                ms.append(by[f].pop())
done = {l.split("\t")[0] for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
out = open(sys.argv[2], "a")
q = queue.Queue()
for m in ms:
    if json.dumps(m) not in done:
        q.put(m)
lock = threading.Lock()


def work(i):
    repo = "/tmp/mutchk%d" % i
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", repo])
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        path = os.path.join(repo, m["file"])
        old = open(path, "rb").read()
        open(path, "wb").write(old[:m["from"]] + m["text"].encode() + old[m["to"]:])
        res = "MISSED"
        for p in next(v for k, v in ORDER if m["file"].startswith(k)).split():
            r = subprocess.run([sys.executable, "check.py", p], cwd=VERIF, env=dict(os.environ, VERIF_REPO=repo, VERIF_TLC_CACHE="/tmp/tlccache"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 1:
                res = p
                break
            if r.returncode:
                res += " %s:rc%d" % (p, r.returncode)
        open(path, "wb").write(old)
        line = old[:m["from"]].count(b"\n")
        with lock:
            out.write(json.dumps(m) + "\t" + res + "\n")
            out.flush()
            print(res, m["file"], m["line"], m["what"][:60], "|", old.split(b"\n")[line].strip().decode()[:110], flush=True)
    shutil.rmtree(repo, ignore_errors=True)


ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get("W", "3")))]
[t.start() for t in ts]
[t.join() for t in ts]
